NOTAPPL = {}
TECH["C08"] = "TLA+ model of the growth protocol (TLC) + trace validation of systematically explored interleavings against a linearizable set"
NOTE["C08"] = "GrowTable.tla is model checked exhaustively for 2 threads, 3 keys, 5 operations, 2 growths; interleavings of the real code are explored with bounded preemptions, random and priority schedules, and each distinct call/return history is decided by TLC against ConcSet.tla. Sequential consistency is assumed."
TECH["C09"] = "TLA+ model of claim-then-store (TLC) + trace validation of systematically explored interleavings"
NOTE["C09"] = "ConcMap.tla is model checked exhaustively for 3 threads and 5 operations; explored interleavings of the real code are decided by TLC against it (presence linearizable, values regular)."
TECH["C10"] = "trace validation by TLC of systematically explored interleavings against a TLA+ bag specification"
NOTE["C10"] = "Explored interleavings of the real code; each distinct history is decided by TLC against the bag specification ConcBagTrace.tla."
TECH["C11"] = "TLA+ model of linear probing (TLC) + trace validation of generated operation sequences against a TLA+ set specification"
NOTE["C11"] = "LinearProbing.tla is model checked exhaustively over all hash functions of a small universe; sequences of operations of the real table (small capacities, adversarial keys, every reserve/copy/move/merge path) are decided by TLC against Store.tla."
TECH["C12"] = "TLA+ model of linear probing with duplicates (TLC) + trace validation of generated operation sequences against TLA+ map and bag specifications"
NOTE["C12"] = "As C11, for LP_Map and LP_MultiMap (KIND map and bag of StoreTrace.tla)."
TECH["C13"] = "trace validation by TLC of bulk operations (with their parallel pieces interleaved systematically) against the TLA+ store specification"
NOTE["C13"] = "Bulk operations of sequential and growing tables are run with a scheduled parallel_for; each distinct history is decided by TLC against Store.tla."
TECH["C14"] = "TLA+ model of word-wise bit set operations (TLC) + trace validation of generated operation sequences against a TLA+ set of integers"
NOTE["C14"] = "BitWords.tla is exhaustive for small words; sequences of the real Bit_Set are decided by TLC against BitSetTrace.tla."
TECH["C15"] = "TLA+ model of compare-and-swap bit updates (TLC) + trace validation of systematically explored interleavings against a linearizable set"
NOTE["C15"] = "BitCas.tla exhaustive for small words and three threads; explored interleavings of Concurrent_Bit_Set are decided by TLC against ConcSet.tla."
TECH["C16"] = "TLA+ model of block search and range splitting (TLC) + trace validation of generated operation sequences and of concurrent writers against a TLA+ store of blocks"
NOTE["C16"] = "BlockStore.tla exhaustive over all layouts of up to 3 blocks in 7 ids; operation sequences on BlockedArray2, dSimplices and BlockedArray (built with AddressSanitizer) and concurrent writers (built with ThreadSanitizer, a race ends the history) are decided by TLC against BlockStoreTrace.tla."
TECH["C18"] = "TLA+ model of range splitting (TLC) + trace validation of split trees over every container against a TLA+ specification"
NOTE["C18"] = "BlockStore.tla covers the splitting algorithm over all layouts and used sets of 7 ids; split trees of real ranges over every container are decided by TLC against RangeTrace.tla."
TECH["C17"] = "TLA+ model of the id arithmetic (TLC) + trace validation of generated operation sequences against a TLA+ point store"
NOTE["C17"] = "PointIds.tla is exhaustive for a word of 6 bits; operation sequences of dPoints and VectorAdapter2 in 2D and 3D (built with AddressSanitizer) are decided by TLC against PointStoreTrace.tla."

TECH["C23"] = "TLA+ model of storing and parsing (TLC) + trace validation of generated operation sequences against a TLA+ record"
NOTE["C23"] = "RecordText.tla checks the parser against every pair of small traits; sequences of operations on real records (all constructors, separators, comparisons) are decided by TLC against RecordTrace.tla."
TECH["C24"] = "TLA+ model of concurrent recording (TLC) + trace validation of systematically explored interleavings at every shared access"
NOTE["C24"] = "RecordConc.tla exhaustive for three threads; the real code is compiled with access hooks, its interleavings explored with bounded preemptions, random and priority schedules, and each distinct outcome decided by TLC against RecordConcTrace.tla."
TECH["C25"] = "TLA+ model of appending to a shared list (TLC) + trace validation of operation sequences and of systematically explored interleavings against a TLA+ log"
NOTE["C25"] = "Sequences of operations by several real threads in turn, and interleavings of logging threads at every shared access, are decided by TLC against LogTrace.tla."
TECH["C26"] = "TLA+ grammar and automaton of number texts (TLC) + trace validation of the code's answers for enumerated and generated texts"
NOTE["C26"] = "NumText.tla: grammar and automaton agree on every text up to length 6; the code's answers for all short texts and for generated and edited numbers are decided by TLC against the automaton."
TECH["C20"] = "trace validation of predicate answers of the real code against exact determinants defined in TLA+ over floating point numbers"
NOTE["C20"] = "FloatGeom.tla defines the determinants over floating point triples exactly; answers of the code (orient2d/3d, incircle, insphere, dSimplex orientation and inSphere, float and double) for random, degenerate and one-ulp-perturbed inputs that reach every adaptive stage are decided by TLC, for the default build and one with -march=native."
TECH["C21"] = "trace validation of the primitives' answers against box, ball and cell geometry defined in TLA+ (definitions model-checked against their meaning by points)"
NOTE["C21"] = "Boxes.tla defines containment, intersection, hulls, cuts and cells over the integers; TLC compares them with their definitions by lattice points. Answers of the real code (2D and 3D, double and float, touching and degenerate cases, integers scaled by powers of two) are decided by TLC; cells of arbitrary widths are compared as floating point triples. The library is linked before the driver."
TECH["C30"] = "TLA+ model of the bit algorithms (TLC, all words of 8 bits) + trace validation of the code's answers for enumerated words"
NOTE["C30"] = "PowerBits.tla runs the algorithms on every 8-bit word; answers of the code for every 8- and 16-bit word and for edge and random words of 32 and 64 bits are decided by TLC against PowerTrace.tla."

TECH["C01"] = "trace validation of meshes returned by the real triangulators against a TLA+ definition of the Delaunay triangulation (exact integer geometry), with the merge algorithm model checked in TLA+"
NOTE["C01"] = "Meshes of the real triangulators for random integer point sets (12 distributions, 2D and 3D, double and float, all partitioners plus one cutting at random, random walk orders, sequential and parallel) are decided by TLC against Mesh.tla: exact orientation and in-sphere tests, exact volume, same simplices in every configuration. Coordinates are integers up to 2e9; the CGAL headers the repository modified are replaced by the same modification of the installed CGAL."
TECH["C03"] = "trace validation of meshes returned by the real triangulators against a TLA+ specification of a consistently linked mesh"
NOTE["C03"] = "As C01, with the operators Links and HullOK of Mesh.tla deciding neighbour symmetry, lookup, vertex order and the hull list."

TECH["C05"] = "trace validation of partitionings computed by the real partitioners against a TLA+ definition of a partition (exact integer coordinates)"
NOTE["C05"] = "Partitionings by every partitioner (d-way, cycle, extend, one-dimensional along every axis), recursively, over random integer point sets with many ties, duplicates, no extent, shifted and wide bounding boxes are decided by TLC against PartTrace.tla (exactly one part, artificial points in all, members within reported bounds, membership queries)."
TECH["C22"] = "trace validation of extents computed by the code against their TLA+ definition (exact integer coordinates)"
NOTE["C22"] = "Extents computed sequentially and in parallel over every container of ids, with and without artificial points, and extents and points read from generated point files are decided by TLC against PartTrace.tla."

TECH["C04"] = "trace validation of the answers of the self check and of the comparison, on meshes built by the system and damaged copies of them, against a TLA+ definition of a valid triangulation (exact arithmetic)"
NOTE["C04"] = "Meshes over random point sets (cocircular, duplicate-free, tiny coordinates, shifted ids) and copies damaged in 14 ways are given to dSimplices::verify and crossCheck; TLC decides the answers against VerifyTrace.tla, with exact in-sphere signs. Flat simplices are unconstrained in the list of encroaching points."

TECH["C07"] = "TLC model of the box tree (insertion and splitting, corners on cell borders) and trace validation of every border test against ball/box geometry and exact in-sphere signs in TLA+"
NOTE["C07"] = "AABBTree.tla is checked exhaustively in 1D (8 cells) and 2D (3x3, any 6 cells; thorough: 3D 2x2x2): every stored cell stays a leaf and is found; rounding the upper corner up instead of to the next border is rejected. The real makers and checkers (bounds, grid, accurate grid, the box tree on its own, copies) answer touching, missing and containing integer balls and computed circumspheres; TLC decides that no point of a part in the closed ball is missed and that grid checkers name exactly the occupied cells met."

TECH["C02"] = "trace validation of meshes returned by the real load-balanced triangulator against a TLA+ definition of the Delaunay triangulation (exact integer geometry), with the merge of arbitrarily assigned parts model checked in TLA+"
NOTE["C02"] = "LBModel.tla checks the merge for every assignment of 4 (thorough: 5) points to 2 or 3 parts; a walk from the hull and parts without points are rejected by it. Meshes of the real triangulator for random integer point sets, 12 partitioners x 3 border checkers x flattened or nested trees x sequential and parallel merges are decided by TLC against Mesh.tla. KaHIP and nanoflann are not installed: kaffpa is replaced by a stand-in that returns balanced, random, unbalanced or one-sided partitions of the sample graph, the nearest-neighbour index by an exact search. The hyperplane bipartitioner is run but its fixed tolerance is not part of the claim."
TECH["C06"] = "TLA+ model of splitting, flattening and collecting partition trees (TLC) + trace validation of trees built by the real load balancers against it"
NOTE["C06"] = "LBTree.tla checks the tree operators over all trees of 5 (thorough: 7) points with ties and depth 3; closed and open cutting rules are rejected. Trees of 12 real partitioners over random integer point sets with many ties, and their copies, flattened, collected and converted forms are decided by TLC against LBTreeTrace.tla. KaHIP and nanoflann stand-ins as in C02."
TECH["C31"] = "TLA+ model of the parallel construction of the compressed graph (TLC, all interleavings) + trace validation of samples, graphs and triangulations of the real sampler against the Delaunay graph defined in TLA+"
NOTE["C31"] = "SampleGraph.tla: two simplices, 2 (thorough: 3) workers, all interleavings; plain counters and counting every occurrence are rejected. Samples of the real code over random integer point sets and subsets, three weight functions, sequential and parallel, are decided by TLC against SampleGraphTrace.tla (exact arithmetic; weights up to rounding). The graph partitioner is a stand-in (KaHIP is not installed)."
TECH["C28"] = "TLA+ model of handing out ids to clusters (TLC) + trace validation of generated and sorted point sets against their TLA+ specification (exact comparison of floating point numbers)"
NOTE["C28"] = "GenSlots.tla checks the id arithmetic for all n up to 40 and 9 clusters; shares rounded down, unpaired last points and ids from zero are rejected. Point sets of all eight generators (2D and 3D, double and float, chosen by letter or by command line name, bounds with integer corners) and spatial sorts with many ties are decided by TLC against GenTrace.tla."
