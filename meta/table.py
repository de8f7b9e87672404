prop("R01", "Parallel phases are free of data races",
     "In every phase of the mesher that runs on several threads, no two threads access the same memory location with at least one of them writing it, unless the accesses are separated by a common lock, an atomic operation or a barrier.",
     ["schedules", "inputs"], "every schedule of every parallel phase, for every input geometry and thread count",
     "The 4-thread tests run a handful of schedules on a few geometries and compare a summary; a race shows on rare interleavings or large inputs only.",
     ["MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroSpokes.cpp", "MeshingSmartTree.cpp", "MeshingRandomSampler.cpp"],
     [("one slot per thread or per work-shared iteration", S + "MeshingVoroCrustSampler.cpp"), ("results merged after the region, in index order", S + "MeshingVoronoiMesher.cpp"), ("one random generator per thread", S + "MeshingVoroCrustSampler.cpp")],
     "whole-program context-sensitive abstract interpretation of OpenMP regions over access paths (index partition, lockset, barrier phase)",
     "Every pair of shared accesses in every region is examined on every run; trusts the OpenMP lowering and that per-thread pointer slots hold distinct allocations.")

prop("D01", "Meshing with a fixed seed is reproducible",
     "With the fixed random seed, the same input and the same number of threads always give the same output files: no value that differs between runs (clock, entropy, process or machine identity, memory addresses) and no thread arrival order influences anything but the console output.",
     ["schedules", "histories", "inputs"], "all runs of all inputs on any machine, under every schedule",
     "The tests run once per case; run-dependence shows only by comparing many runs on different machines and loads.",
     ["MeshingRandomSampler.cpp", "MeshingVoroCrustSampler.cpp", "MeshingTimer.cpp", "MeshingConsole.cpp", "MeshingVoronoiMesher.cpp"],
     [("seeds derived from a constant and the thread's number", S + "MeshingRandomSampler.cpp"), ("clock values only reported", S + "MeshingTimer.cpp"), ("static schedules, per-thread generators", S + "MeshingVoroCrustSampler.cpp")],
     "interprocedural taint analysis from run-dependent sources; effect analysis of locked, atomic and reduced updates in parallel regions",
     "Flow- and field-sensitive on SSA over the whole program; explicit and control flows into data; trusts the list of run-dependent sources.")

prop("F01", "Every combination of build options compiles",
     "Under every combination of the supported build options (OpenMP, MPI, Kokkos, Exodus, LAPACK, fixed random seed) the library and the application compile and every function they use is defined.",
     ["configurations"], "all combinations of the options that the sources can see",
     "The tests build exactly one combination; code of the others is never even parsed.",
     ["Config.h.in", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingExodusIO.cpp", "vc_mesh.cxx", "MeshingTimer.cpp"],
     [("conditional compilation on Config.h", S + "Config.h.in"), ("OpenMP and serial forms of each parallel loop", S + "MeshingVoroCrustSampler.cpp")],
     "exhaustive type checking of all build-option combinations, plus undefined-symbol query",
     "Complete over the option space; Exodus II and Kokkos are represented by stand-in headers with their documented prototypes.")

prop("I01", "No input row is read past its last field",
     "Whatever the rows of an input file look like (missing fields, empty lines, extra blanks, any keyword), the readers of option, OBJ and CSV files access only fields that the row has.",
     ["inputs"], "all contents of all input files", "The tests read well-formed files; an incomplete row reads past the end of a vector, which often goes unnoticed.",
     ["MeshingVoroCrust.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp"],
     [("rows split into fields, field count tested before use", S + "MeshingVoroCrust.cpp"), ("OBJ rows", S + "MeshingPolyMesh.cpp"), ("CSV rows", S + "MeshingSmartTree.cpp")],
     "dominating-guard analysis: linear facts from branch conditions prove index < size() at every field access",
     "Every access to a field vector is an obligation; proof by linear facts that dominate the access and survive intervening writes.")

prop("I02", "Numbers from input files are range-checked before use",
     "An integer read from an input file (vertex numbers of faces, attribute counts, thread count, region numbers) is used as an index, size or count only after both ends of its range have been checked, or else the file is rejected.",
     ["inputs"], "all numbers an input file may contain, including negative, zero and huge ones",
     "The tests read well-formed files; a wrong number corrupts memory or makes a mesh of garbage.",
     ["MeshingVoroCrust.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp"],
     [("vertex numbers of OBJ faces", S + "MeshingPolyMesh.cpp"), ("attribute counts of CSV rows", S + "MeshingSmartTree.cpp"), ("NUM_THREADS and region numbers", S + "MeshingVoroCrust.cpp")],
     "interprocedural taint from text-to-integer conversions to index, size and count sinks with dominating-bound sanitisers",
     "Both bounds must be established by dominating branches on the parsed value; real-valued inputs are not covered.")

prop("E01", "An unreadable input file makes the run fail",
     "When an input file (options, surface mesh, points) cannot be opened, the failure is reported through every caller, and the application ends with a non-zero exit status instead of meshing nothing or stale data.",
     ["fault_sequences", "inputs"], "a failure to open at any of the places where files are read", "The tests run with files that exist.",
     ["MeshingVoroCrust.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "vc_mesh.cxx"],
     [("status codes returned to main", S + "vc_mesh.cxx"), ("readers", S + "MeshingPolyMesh.cpp")],
     "failure-path dataflow: hypothesis 'this open failed' propagated with constants along the CFG and up the call graph to main's return",
     "Every stream and every status-carrying call site is an obligation; a failure in the middle of a file that was opened is not covered.")

prop("E02", "A failed write makes the run fail",
     "When an output file cannot be created or written completely (no such directory, no permission, disk full), the function that writes it returns a failure, every caller passes it on, and the application ends with a non-zero exit status.",
     ["fault_sequences"], "a failure of any single write, to any output file, at any point", "The tests never make a write fail.",
     ["MeshingVoroCrust.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "vc_mesh.cxx"],
     [("stream state tested after the last flush", S + "MeshingVoronoiMesher.cpp"), ("status codes returned to main", S + "vc_mesh.cxx")],
     "failure-path dataflow: hypothesis 'this write failed' propagated along the CFG and up the call graph to main's return",
     "Every write operation and every status-carrying call site is an obligation; log output is not covered.")

prop("K01", "kd-tree queries are exact",
     "Every kd-tree query (closest point, points within a radius, shortening a spoke by the seeds that trim it, listing all points) gives what an exhaustive pass over the tree's points gives: a half of a node is skipped only when no point in it can matter, a point is accepted exactly when it is closer (within the radius) and not excluded by the caller, every query starts at the root of the tree it is asked about, with the first dimension, that tree's own arrays and a fresh limit distance, and a query changes nothing in the tree.",
     ["inputs", "histories"], "all point sets, all queries and all trees, however they were built",
     "A wrongly skipped half loses a neighbour for few combinations of points and query only; the mesh then looks fine but is not the Voronoi mesh of its seeds.",
     ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoroSpokes.cpp", "MeshingPolyMesh.cpp"],
     [("recursive searches", S + "MeshingSmartTree.cpp"), ("recursive searches on plain arrays", S + "MeshingVoronoiMesher.cpp"), ("limit distance set before each query", S + "MeshingVoroCrustSampler.cpp")],
     "path-by-path analysis of the recursive searches with linear entailment of the pruning bound; dataflow of roots, dimensions, child arrays and limit distances at every query",
     "All paths of all traversals; trusts real arithmetic (no rounding) and, for the spoke search, the geometric lemma |seed - query| < 2 * spoke length + origin distance.")

prop("K02", "A kd-tree holds each of its points exactly once, on the right side",
     "Building a kd-tree, whatever the points, puts every point into it exactly once; adding a point links it once, at a free place, on the side of every node on the way that its coordinate in that node's splitting dimension demands, the dimension advancing cyclically over all dimensions; every point without a child refers to itself.",
     ["inputs", "histories"], "all point sets, including coincident and collinear points, and all sequences of insertions",
     "A lost subtree or a wrong side shows as a missed neighbour in rare configurations only.",
     ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp"],
     [("kd_tree_add_point, kd_tree_balance_quicksort", S + "MeshingSmartTree.cpp"), ("the same on plain arrays", S + "MeshingVoronoiMesher.cpp")],
     "path-by-path analysis of insertion and construction: linked exactly once, side entailed by the comparison, index ranges of the recursion partition the input, the partition step only permutes",
     "All paths of both inserters and both builders; the median position is only a matter of balance and is not checked.")

prop("K03", "A tree or point set without points is never searched",
     "A kd-tree or point set that holds no points (a model without corners, edges or interior seeds) is never entered: searches of it return without touching it, building it does nothing, and the number of points minus one is never formed from zero.",
     ["inputs"], "all models, including those without corners, sharp edges or smooth faces", "The test models all have corners, edges and faces; an empty kind of point crashed the mesher.",
     ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp"],
     [("queries", S + "MeshingSmartTree.cpp"), ("construction", S + "MeshingVoronoiMesher.cpp")],
     "dominating-guard analysis: every entry into a traversal, construction or insertion must be dominated by a proof that the tree has a point",
     "Every entry is an obligation, discharged at the entry or at all its callers.")

prop("U01", "No value is used before it was assigned",
     "Every local number, flag and pointer has been given a value on every feasible path before it is read, also where the value comes back from a called function through a reference (which may leave it untouched, for example when nothing was found or no limit applied); and every constructor gives every number, flag and pointer member of its class that is ever read a value.",
     ["inputs", "histories"], "all inputs and all sequences of operations",
     "What such a read gives depends on the stack: tests pass by luck, and other inputs, compilers or machines give other meshes or a crash.",
     ["MeshingSmartTree.cpp", "MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoroCrust.cpp", "MeshingVoronoiMesher.cpp", "MeshingOptionParser.h"],
     [("out-parameters of searches", S + "MeshingSmartTree.cpp"), ("constructors", S + "MeshingVoroCrustSampler.cpp"), ("options", S + "MeshingVoroCrust.cpp")],
     "definite-assignment dataflow with function summaries for reference parameters, confirmed path by path with constant and condition tracking; member assignment on all constructor paths",
     "All local scalars and all members of classes with constructors; elements of arrays are not tracked. Paths are dropped only when the tracked constants and conditions contradict each other.")

prop("G01", "Growing a list loses nothing",
     "Every list that grows while it is filled is enlarged no later than when its number of entries has reached its capacity and before the next entry is appended; all of its arrays are enlarged together, each to at least the new capacity, with all entries at the same positions as before; the new capacity is larger than the old one and is recorded with the list; where free places are marked as such, the new ones are too; and a list is always appended to with its own count and its own capacity.",
     ["inputs", "histories"], "all numbers of entries, whatever the model needs",
     "Lists start with room for 10 to 1000 entries; what goes wrong beyond that (lost or stale entries, writes past the end) shows only on models larger or more intricate than the test models.",
     ["MeshingMemoryHandler.cpp", "MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "MeshingLinearSolver.cpp", "MeshingVoroCrustSampler.cpp", "MeshingPolyMesh.cpp"],
     [("add_entry", S + "MeshingMemoryHandler.cpp"), ("add_tree_point, graph_connect, neighbour lists", S + "MeshingSmartTree.cpp"), ("corner lists of a cell, seeds, spheres", S + "MeshingVoronoiMesher.cpp"), ("sparse rows", S + "MeshingLinearSolver.cpp")],
     "recognition of growth sites in the control flow, with linear entailment for condition, new size and copied range; path search between appends; matching of array, count and capacity at every appending call",
     "All growth sites and all calls that append; lists are recognised by their count, capacity and copy loop, not by name.")

prop("B01", "Loops stay within the arrays they run over",
     "Whenever the code runs a loop over an array, or accesses fixed elements of it, the array was allocated with at least as many elements as the last round of the loop (or the fixed element) needs, also where the array is allocated in one function and run over in another: the size it was given and the limit of the loop agree for all counts, not only for the usual ones.",
     ["inputs"], "all numbers of points, faces, spheres, seeds, samples and threads",
     "Writing past the end of a heap array goes unnoticed by tests that check the exit status, and many sizes agree by accident on the test models (for example more surface spheres than sizing points).",
     ["MeshingVoronoiMesher.cpp", "MeshingSmartTree.cpp", "MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoroCrust.cpp", "MeshingLinearSolver.cpp", "MeshingVoroSpokes.cpp"],
     [("trees on plain arrays", S + "MeshingVoronoiMesher.cpp"), ("faces, points and sharp edges", S + "MeshingPolyMesh.cpp"), ("per-thread arrays", S + "MeshingVoroCrustSampler.cpp"), ("matrices", S + "MeshingLinearSolver.cpp")],
     "interprocedural extent analysis: index expressions of loop counters against allocation sizes by linear and product entailment; demands on array parameters passed up the call graph",
     "Decides indices made of loop counters, constants and parameters (about 2000 accesses proved); indices that are themselves data (connectivity, counts made while filling) are counted and left undecided. Arrays kept in objects or obtained from elsewhere are judged against the other loops over them and the other calls they are handed to.")

prop("M01", "Released memory is never touched again",
     "On every path through the code, memory that was released is not read, written, passed on or released a second time; when a function returns, no object and no variable of its caller still points to memory it released (so that clearing an object twice, or reusing it after clearing, is safe); and memory is released in the form in which it was obtained (new with delete, new[] with delete[], malloc with free).",
     ["inputs", "histories"], "all paths through all functions, all sequences of calls on trees, meshes and samplers (clear, refill, grow, destroy)",
     "Use after release goes mostly unnoticed in a run: the old contents are still there, and the paths where it matters (growing a list, an error exit, clearing an object that is used again) are rarely taken by tests.",
     ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoroCrust.cpp", "MeshingLinearSolver.cpp", "MeshingVoroSpokes.cpp"],
     [("clearing, growing and destroying trees", S + "MeshingSmartTree.cpp"), ("growing lists of seeds", S + "MeshingVoronoiMesher.cpp"), ("ownership across the pipeline", S + "MeshingVoroCrust.cpp"), ("meshes", S + "MeshingPolyMesh.cpp"), ("active pools", S + "MeshingVoroCrustSampler.cpp")],
     "typestate analysis of released values with callee summaries and path facts; unification of allocation and release forms",
     "Sound for values named by the paths through which they are reached (fields, elements, arguments, results of accessors); aliases between elements at unrelated indices are not followed.")

prop("W01", "Written files are complete, consistent and read the way they are written",
     "Every mesh file (OBJ surface, PLY tessellation, VCG geometry) and every list of spheres, seeds or tree points that the program writes is well-formed whatever the data: the numbers of records announced in it are the numbers of records that follow, from the first to the last; every record has the fields its format (or the first line of the file) asks for, on every path, in order (x, y, z and the like next to each other, none twice), separated from one another and ended by a line end; vertices are numbered from 1 in OBJ and from 0 in PLY, cells from 1 in VCG, by one numbering throughout the file, and ghost cells without a number are never named; numbers in files that serve as input again are written with at least 16 digits; and the readers take the words of a line in that same order and numbering.",
     ["inputs"], "all meshes, seeds and spheres that can be written or read, ghost cells, clipped faces and missing normals or attributes included",
     "A header count that is off, a ghost cell that is named or a dropped field only shows with certain meshes (ghost seeds, clipped faces, missing normals) and in the program that reads the file; the tests look at the exit status only.",
     ["MeshingPolyMesh.cpp", "MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp"],
     [("OBJ files and sphere lists", S + "MeshingPolyMesh.cpp"), ("lists of tree points", S + "MeshingSmartTree.cpp"), ("PLY, VCG and sphere files", S + "MeshingVoronoiMesher.cpp"), ("reading seeds", S + "MeshingVoroCrust.cpp")],
     "the text written along every path, put together line by line (literals, values, loops as repetitions) and compared with the file's own announcements and with its format; counting and writing loops compared by range and guard",
     "Plots (PostScript) are not judged, nor is the Exodus writer, which is not compiled here; texts that depend on strings known only at run time are left undecided. That the values written (volumes, areas, normals) are right is not decided here.")

prop("P01", "Loops leave nothing out, and shared work is done completely and once",
     "Whenever the code goes over a list (points, faces, corners of a face, coordinates, spheres, seeds, tree points, patches, threads), it goes from the first entry to the last: no loop starts late or ends early unless the entries it leaves out are treated next to it. Loops over pairs take every pair, also that of neighbours. Work that is divided among threads or into patches is divided without gaps and overlaps: each thread does as many entries as the next thread's first entry is away, the shares reach the end of the list also when the division leaves a rest, there are as many shares and per-thread results as threads run, and the results of all threads are gathered.",
     ["inputs", "schedules"], "all meshes and numbers of entries, all numbers of threads",
     "A skipped first face or a rest that no thread gets leaves a hole only in some models and with some numbers of threads; the mesher covers it with a few more samples or not, and the tests look at the exit status only.",
     ["MeshingVoroCrustSampler.cpp", "MeshingVoroSpokes.cpp", "MeshingVoronoiMesher.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp"],
     [("shares of the active pool, patches", S + "MeshingVoroCrustSampler.cpp"), ("shares of the neighbours", S + "MeshingVoroSpokes.cpp"), ("parallel loops, pairs of front seeds", S + "MeshingVoronoiMesher.cpp"), ("faces and their corners", S + "MeshingPolyMesh.cpp")],
     "ranges of all counting loops as linear expressions, with the offsets of their accesses, compared with the ends of the lists; shares of threads compared with the division they come from, across the boundary of the parallel region",
     "That a limit is the right number of entries is decided only as far as B01 (too large) and the division of work do; entries skipped by conditions inside a loop are not judged.")

prop("J01", "A number meant for one list never reaches another",
     "Surface, edge and corner spheres (and seeds and interior spheres) are numbered through as one range: a number below the number of surface spheres is a surface sphere, the next ones are edge spheres, the rest corner spheres. Wherever such a number is used, the list it is used with is the one it falls into and exactly the numbers of entries of the lists before it are subtracted; where entries of one list are given such numbers, exactly those are added; and where a sphere is to be left out of a search, it is left out of its own list (its number there) and nothing is left out of the others (their number of entries). A list is handed from function to function together with its own number of entries, never with that of another list, and what is done only when a list has entries is done with that list.",
     ["inputs"], "all models with any numbers of surface, edge and corner spheres",
     "A wrong offset or list silently takes or shrinks another sphere; on models without sharp edges or corners, where only one list has entries, nothing shows.",
     ["MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp"],
     [("sliver elimination and watertightness", S + "MeshingPolyMesh.cpp"), ("surface seeds and slivers", S + "MeshingVoroCrustSampler.cpp"), ("front of interior seeds", S + "MeshingVoronoiMesher.cpp")],
     "path-condition dataflow over symbolic numbers of entries: interval between sums of counts, compared with the offset subtracted and with the object whose count it is",
     "All uses that dominating comparisons place in the range; the owner of each count is found through the call that returned it.")


prop("C01", "Every option of the input file reaches what it controls, and only that",
     "For each key of the option file: INPUT_MESH_FILE and SEEDS_FILE name the files read (SEEDS_FILE's only with GENERATE_MESH_FROM_SEEDS), SIZING_FILE the sizing function given to both surface sampling and interior seeding, R_MIN the tolerance for features, R_MAX the upper limit of sphere radii, LIP_CONST the slope with which radii may grow, VC_ANGLE in degrees the angle whose cosine separates smooth from sharp, NUM_THREADS the number of threads of every parallel region. Each value arrives unchanged (not scaled, replaced by a constant, or exchanged with another option) at every function that takes it. mesh.vcg, mesh.exo and monitoring_points.csv are written exactly if GENERATE_VCG_FILE, GENERATE_EXODUS_FILE and GENERATE_MONITORING_POINTS are given, monitoring_points.csv is read exactly if IMPOSE_MONITORING_POINTS is, and then not overwritten; options not given are off.",
     ["inputs"], "all option files, all values of all options",
     "Options travel as unnamed doubles and bools through up to six calls with a dozen arguments; two exchanged arguments give a mesh all the same, and the tests look only at the exit status.",
     ["MeshingVoroCrust.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingSpheresMethods.cpp", "MeshingSmartTree.cpp", "MeshingPolyMesh.cpp"],
     [("reading of the option file and the driver", S + "MeshingVoroCrust.cpp"), ("sphere sampling", S + "MeshingVoroCrustSampler.cpp"), ("interior seeds", S + "MeshingVoronoiMesher.cpp"), ("coverage and Lipschitz bounds", S + "MeshingSpheresMethods.cpp")],
     "interprocedural provenance (label) analysis of option values, with flag-sensitive reachability of file accesses over the call graph",
     "Labels are exact copies or derived values; roles are recognised from the comparisons, limits and products the values take part in.")

prop("S01", "Spheres respect every limit on their size, and only shrink",
     "The radius given to a corner, edge, surface or interior sphere when it is made is at most R_MAX; at most the size that the sizing function, if there is one, gives at the closest of its points; at most half of the distance to the closest point of every set of features it must be small against (surface and edge point cloud; for edge and surface spheres also the corner spheres); for edge, surface and interior spheres at most a neighbouring sphere's radius plus Lip times their distance; and an edge or surface sphere does not reach over the centre of an earlier one. Only the configured minimum radii may raise it. A seed's size is at most the radius of each of the three spheres it lies on. After it is made a radius only ever gets smaller, and whenever one does, the function says so to its caller or goes round again, and a caller that is told so covers the surface again before it goes on.",
     ["inputs", "histories"], "all meshes, sizing functions and option values; all sequences of insertions and corrections of spheres",
     "Limits are taken in turn by half a dozen statements per kind of sphere; one that is missing, inverted or overwritten on one path still gives a mesh, of too large cells or after other numbers of rounds. Shrinking without covering again leaves holes that show only on some inputs.",
     ["MeshingVoroCrustSampler.cpp", "MeshingSpheresMethods.cpp", "MeshingPolyMesh.cpp", "MeshingVoronoiMesher.cpp"],
     [("sizes of corner, edge and surface spheres; corrections in narrow regions", S + "MeshingVoroCrustSampler.cpp"), ("sizes of interior spheres, Lipschitz continuity of seeds", S + "MeshingVoronoiMesher.cpp"), ("Lipschitz continuity of spheres", S + "MeshingSpheresMethods.cpp"), ("slivers and non-manifold edges", S + "MeshingPolyMesh.cpp")],
     "upper-bound dataflow: backward must-analysis of the limits on each stored radius with branch facts; dominance proof of new <= old; boolean path exploration of shrink reports",
     "Limits are recognised by provenance (option labels, queries of a tree, products with Lip), not by variable names.")


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, na=reason)


na("V01", "The output mesh is a Voronoi mesh that conforms to the input surface",
   "Every cell of the output mesh is the Voronoi cell of its seed, and the faces between cells of different regions reproduce the input surface within the tolerance that the sphere radii imply.",
   ["inputs"], "all watertight input surfaces and option values", "Tests look at the exit status only, on a handful of models.",
   ["MeshingVoronoiMesher.cpp", "MeshingVoroCrustSampler.cpp"], [("explicit mesh", S + "MeshingVoronoiMesher.cpp"), ("seeds from spheres", S + "MeshingVoroCrustSampler.cpp")],
   "A statement about floating-point coordinates computed at run time (intersections of spheres, clipped cells): no static argument in reach bounds them. The structural parts are decided under K01 (exact trimming), J01 and S01.")
na("V02", "The surface spheres cover the surface, and the feature spheres the features",
   "When sampling ends, every point of the input surface lies deep inside some sphere, every sharp edge is covered by edge spheres and every corner has a corner sphere.",
   ["inputs", "histories"], "all input surfaces, all sampling histories", "Holes show on a few triangles of some models only; nothing in the tests looks for them.",
   ["MeshingVoroCrustSampler.cpp", "MeshingSpheresMethods.cpp"], [("maximal Poisson-disk sampling with an active pool", S + "MeshingVoroCrustSampler.cpp")],
   "Whether a set of spheres computed at run time covers a surface is a geometric fact about data, and the sampling ends on counters and tolerances; S01 decides that changes of radii are reported and lead to covering again.")
na("V03", "Radii are Lipschitz continuous when sampling has ended",
   "After sampling, the radii of any two spheres differ by at most the Lipschitz constant times the distance of their centres.",
   ["inputs", "histories"], "all pairs of spheres of all runs", "Tests never compare radii.",
   ["MeshingSpheresMethods.cpp", "MeshingVoroCrustSampler.cpp"], [("impose_lipschitz_continuity", S + "MeshingSpheresMethods.cpp")],
   "It is the fixed point of a numeric iteration over all pairs that a range search finds; static analysis decides only that each bound is applied with Lip and that shrinking is reported (S01).")
na("V04", "Cells are closed, volumes add up, and regions are those of the input",
   "The faces of each cell close up, the volumes of the cells of a region add up to the volume the surface encloses, and each cell belongs to exactly one region.",
   ["inputs"], "all closed input surfaces", "The tests compare no volume or topology.",
   ["MeshingVoronoiMesher.cpp", "MeshingPolyMesh.cpp"], [("construction of cells", S + "MeshingVoronoiMesher.cpp")],
   "Depends on floating-point merging of corners by distance; no static argument bounds it.")
na("V05", "Corners, sharp edges and non-manifold features of the input are preserved",
   "Every corner, every edge whose dihedral angle is sharper than the option says, and every non-manifold edge of the input appears in the output mesh.",
   ["inputs"], "all input surfaces", "A feature lost on one model goes unnoticed.",
   ["MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp"], [("detection of sharp features", S + "MeshingPolyMesh.cpp")],
   "A geometric statement about the output; that the angle reaches its comparison unchanged is decided under C01.")
na("V06", "Meshing terminates",
   "For every input and every positive radius, all refinement loops end.",
   ["inputs", "histories"], "all inputs, all numbers of rounds", "A test shows only that its own model ends.",
   ["MeshingVoroCrustSampler.cpp", "MeshingVoroCrust.cpp", "MeshingSpheresMethods.cpp"], [("rounds of sampling and shrinking", S + "MeshingVoroCrust.cpp")],
   "The loops end when geometry that is computed at run time no longer changes, or a random sampler misses often enough; there is no ranking function in the source to check.")
na("V07", "Time and memory grow in proportion to the numbers of spheres and seeds",
   "Queries take logarithmic and phases near-linear time and memory in the numbers of spheres and seeds.",
   ["inputs"], "all model sizes", "Tests run small models without limits of time or memory.",
   ["MeshingSmartTree.cpp", "MeshingVoronoiMesher.cpp"], [("kd-trees", S + "MeshingSmartTree.cpp")],
   "Costs depend on how balanced trees and how local neighbourhoods are for the data at hand; not a property of the source that static analysis could bound.")
