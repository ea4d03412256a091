#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source of truth)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Divide-and-conquer triangulation is the Delaunay triangulation",
 "For every finite set of points in general position, in two and three dimensions, the divide-and-conquer triangulator produces exactly the simplices of the Delaunay triangulation of those points together with the artificial corner points it adds, no more and no fewer. The result is the same whatever the splitting strategy (single axis, cycling axis, all axes), the partition order, the base-case algorithm, the recursion depth and whether it ran sequentially or in parallel.",
 ["inputs", "configurations", "schedules"],
 "all point sets in general position (axis-aligned clusters, skewed, tiny and large aspect ratios, small sets below the recursion threshold and large ones above it), all splitter strategies, all worker counts",
 "A unit test compares a couple of fixed clouds against CGAL; border detection, border re-triangulation and neighbour stitching only go wrong for particular positions of points relative to the split, so no finite list of clouds settles it.",
 ["src/lib/DCTriangulator.cpp", "include/DCTriangulator.h", "src/lib/Triangulator.cpp", "src/lib/Partitioner.cpp", "include/Partitioner.h", "src/lib/CGALTriangulator.cpp", "include/Geometry.h"],
 [("border detection", "DCTriangulator::getEdge"), ("border point extraction", "DCTriangulator::extractPoints"),
  ("merging partial triangulations", "DCTriangulator::mergeTriangulation / updateNeighbors"), ("recursion", "DCTriangulator::_triangulateBase"),
  ("artificial corner points", "DCTriangulator constructor"), ("sequential base case", "CGALTriangulator")],
 ["Triangulator::triangulate return value: simplices, neighbour ids, convex hull list"])

prop("C02", "Load-balanced triangulation is the Delaunay triangulation",
 "For every finite set of points in general position the load-balanced divide-and-conquer triangulator produces exactly the simplices of the Delaunay triangulation of those points together with the artificial corner points it adds, for every load-balancing partitioner (one axis, cycling axis, best axis, all axes, equal strips, sample based with nearest-sample, bounds-distance, centre-distance and box-estimating assignment) and every border-intersection checker (bounds, grid, accurate grid).",
 ["inputs", "configurations", "schedules"],
 "all point sets in general position x every partitioner x every intersection checker x worker counts",
 "The repository has no test of the load-balanced triangulator at all; whether an over-optimistic border test loses simplices depends on the geometry of the particular partition tree.",
 ["include/LoadBalancedDCTriangulator.h", "include/LoadBalancedDCTriangulator.tpp", "include/load_balancing"],
 [("recursive merge over a partition tree", "LoadBalancedDCTriangulator::recursiveTriangulate"),
  ("border detection with a conservative partition test", "LoadBalancedDCTriangulator::getEdge"),
  ("merge", "LoadBalancedDCTriangulator::mergeTriangulation")],
 ["Triangulator::triangulate return value", "Monitor::registerPartialTriangulation callback"])

prop("C03", "Returned mesh bookkeeping is consistent",
 "In every triangulation the system returns, each simplex can be looked up under its own id, its vertices are in ascending order, every finite neighbour it names exists, shares exactly the opposite facet with it and names it back in its own matching slot, and the convex-hull list contains exactly the ids of the simplices that touch an artificial corner point.",
 ["inputs", "configurations"],
 "all inputs and configurations of the sequential, the divide-and-conquer and the load-balanced triangulators, in 2D and 3D",
 "The neighbour relation is rebuilt incrementally across merges from border lookups; a dangling or one-sided link appears only for particular border shapes.",
 ["src/lib/DCTriangulator.cpp", "src/lib/CGALTriangulator.cpp", "src/lib/Geometry.cpp", "include/Geometry.h"],
 [("neighbour stitching", "DCTriangulator::updateNeighbors"), ("facet hashing and neighbour slots", "Geometry.h dSimplex / _tFace"),
  ("conversion from the base triangulation", "CGALTriangulator: CGALHelper / PureCGAL export")],
 ["dSimplices: iteration, operator[], convexHull, simplexIDs"])

prop("C04", "Triangulation verifier accepts valid and rejects invalid meshes",
 "The self-check of a triangulation reports success for every valid Delaunay triangulation of the given points (also with cocircular points) and failure whenever a given point is unused, a used point is not given, a neighbour link is dangling or one-sided, two simplices with a common facet are not linked, a simplex with an artificial corner is missing from the hull list, or a given point lies strictly inside the circumsphere of a simplex across one of whose facets it lies; the comparison against a reference triangulation reports exactly the missing and the surplus simplices.",
 ["inputs"],
 "all valid triangulations and all single faults planted in them: removed simplex, surplus simplex, corrupted vertex, corrupted neighbour, point inside a circumsphere",
 "The tests never call the verifier on a broken mesh, so an always-true verifier passes every one of them.",
 ["src/lib/Geometry.cpp", "include/Geometry.h"],
 [("self check", "dSimplices::verify"), ("comparison", "dSimplices::realDCVerify / crossCheck"), ("counting", "dSimplices::countDuplicates")],
 ["VerificationReport / CrossCheckReport returned by dSimplices"])

prop("C05", "Partitioners split points exactly",
 "Every point partitioner assigns each input point to exactly one partition and each artificial corner point to every partition, each finite point of a partition lies within the bounds reported for that partition, and no partitioner invents a point id.",
 ["inputs", "configurations"],
 "all point sets (including duplicates on the split plane and unequal extents), all dimensions, all partitioner kinds and partition counts",
 "Ties on a splitting plane, unbalanced extents and odd splits are input-dependent; the tests do not look at partitions.",
 ["src/lib/Partitioner.cpp", "include/Partitioner.h"],
 [("d-way split", "dWayPartitioner::partition"), ("one dimension", "OneDimPartitioner::partition"), ("cycle", "CyclePartitioner::partition")],
 ["Partitioner::partition result: point id sets and bounds"])

prop("C06", "Load-balancing partition trees cover the points exactly",
 "Every load-balancing partitioner produces a tree whose leaves contain every finite input point exactly once, every artificial corner point, and nothing else, every finite point lies within the bounds of its leaf and of all ancestors of that leaf, and flattening or collecting the tree yields exactly the leaves' contents.",
 ["inputs", "configurations"],
 "all point sets, all load-balancing partitioners, split counts and sample sizes",
 "No test covers the load balancers; losing or duplicating a point depends on ties and on sample geometry.",
 ["include/load_balancing", "include/load_balancing/PartitionTree.h"],
 [("tree building", "include/load_balancing/SimplePartitioner.h, DWayPartitioner, OneDimSimplePartitioner, CycleSimplePartitioner, BestSimplePartitioner"),
  ("sample partitioners", "include/load_balancing/sample_partitioner/*"), ("tree traversal", "include/load_balancing/PartitionTree.h")],
 ["Partitioner::partition result (PartitionTree)"])

prop("C07", "Partition intersection tests never miss a real intersection",
 "Whenever a circumsphere contains or touches a point of another partition, every border-intersection checker (bounds, grid, accurate grid) answers that the sphere intersects that partition, and the box tree reports an intersection whenever one of the boxes stored in it intersects the query.",
 ["inputs"],
 "all point sets, partitions, cell widths and query spheres, including points exactly on cell and box borders",
 "A single missed sphere silently yields a wrong mesh; whether one is missed depends on borders, rounding and insertion order.",
 ["include/load_balancing/IntersectionChecker.h", "include/load_balancing/GridIntersectionChecker.h", "include/load_balancing/AccurateGridIntersectionChecker.h", "include/load_balancing/Grid.h", "include/datastructures/AABBTree.h", "include/load_balancing/BoxUtils.h"],
 [("grid", "include/load_balancing/Grid.h"), ("box tree", "include/datastructures/AABBTree.h"), ("checkers", "include/load_balancing/*IntersectionChecker.h")],
 ["IntersectionChecker::operator()", "AABBTree query"])

prop("C08", "Growing concurrent hash set is linearizable across growth",
 "Under every schedule of concurrent inserts and lookups through per-thread handles, including schedules in which the table grows and migrates meanwhile, exactly one insert of each key reports that it added the key, a key that was added is found by every later lookup and by iteration, and nothing that was never inserted is found.",
 ["schedules", "histories"],
 "all interleavings of any number of handles, all key sequences, initial capacities and growth points",
 "The interleaving in which an insert races with the migration of its block is needed; a stress test hits it rarely and cannot show that it never happens.",
 ["include/datastructures/Growing_LP.hxx", "include/datastructures/LP_Set.hxx"],
 [("grow / migrate protocol", "GrowingHashTable::grow, _migrate"), ("handle refresh", "GrowingHashTableHandle::getTable"), ("slot claim", "Concurrent_LP_Set::insert / _insert")],
 ["GrowingHashTableHandle: insert return value, contains, iteration at quiescence"],
 state=[("epoch_r/epoch_w", "published and in-preparation table version", "GrowingHashTable")])

prop("C09", "Growing concurrent hash map keeps every binding",
 "Under every schedule of concurrent inserts and lookups through per-thread handles, including schedules with growth, each key's binding is one of the values some insert gave it (the last one when the inserts do not overlap), exactly one insert of a fresh key reports it as new, and no binding is lost or altered by a migration.",
 ["schedules", "histories"],
 "all interleavings of handles, key and value sequences, initial capacities and growth points",
 "Needs a schedule in which a value write races with the copy of its slot into the next table.",
 ["include/datastructures/Growing_LP.hxx", "include/datastructures/LP_Map.hxx"],
 [("grow / migrate protocol", "GrowingHashTable::grow, _migrate"), ("slot claim and value write", "Concurrent_LP_Map::insert / _insert")],
 ["GrowingHashTableHandle: insert return value, get, iteration at quiescence"])

prop("C10", "Growing concurrent multimap keeps every pair",
 "Under every schedule of concurrent inserts, including schedules with growth, the multimap finally contains every inserted key-value pair exactly as often as it was inserted, and a lookup of a key returns exactly the pairs of that key.",
 ["schedules", "histories"],
 "all interleavings of handles, key and value sequences (many values per key), initial capacities and growth points",
 "Losing one of several equal keys during a migration is invisible unless a particular schedule and key distribution coincide.",
 ["include/datastructures/Growing_LP.hxx", "include/datastructures/LP_MultiMap.hxx"],
 [("grow / migrate protocol", "GrowingHashTable::grow, _migrate"), ("pair insertion", "Concurrent_LP_MultiMap::insert")],
 ["GrowingHashTableHandle: insert, get, iteration at quiescence"])

prop("C11", "Sequential hash set behaves as a mathematical set",
 "Starting from any capacity and after any sequence of inserts, lookups, rehashes, merges, filters, copies and iterations, the hash set contains exactly the keys put into it, insertion reports whether the key was new, its size equals the number of distinct keys, and iteration yields each key exactly once.",
 ["histories"],
 "all operation sequences over all non-zero keys, capacities and hash collision patterns",
 "Wrong answers need particular collision chains, wrap-around at the array end or a fill level at the growth limit; the tests use one capacity and one key pattern.",
 ["include/datastructures/LP_Set.hxx"],
 [("probing", "LP_Set::insert / contains"), ("growth", "LP_Set::rehash"), ("bulk", "LP_Set::merge / filter")],
 ["LP_Set public operations"])

prop("C12", "Sequential hash map and multimap behave as their models",
 "After any sequence of inserts, lookups, rehashes and merges, the hash map binds each key to the value inserted last and the multimap holds exactly the bag of inserted pairs; a lookup always returns, finds exactly what was inserted, and iteration yields every entry exactly once.",
 ["histories"],
 "all operation sequences over all non-zero keys, capacities and hash collision patterns",
 "A lookup of an absent key in a full table, chains that wrap around and interleaved chains of several keys need specific histories.",
 ["include/datastructures/LP_Map.hxx", "include/datastructures/LP_MultiMap.hxx"],
 [("map probing", "LP_Map::insert / get"), ("multimap probing", "LP_MultiMap::insert / get / _range")],
 ["LP_Map, LP_MultiMap public operations"])

prop("C13", "Bulk operations between tables preserve contents",
 "Copying, moving, merging (with and without a filter) and converting between the sequential and the concurrent hash tables and growing the concurrent ones preserve contents exactly: the result contains every entry of the sources that passes the filter, and no other entry, and iteration ranges split for parallel processing still visit each entry exactly once.",
 ["inputs", "histories"],
 "all contents, capacities (equal and different, including empty) and filters",
 "Bulk paths run in parallel block-wise; lost entries appear only at block borders, at full probes or for particular capacity combinations.",
 ["include/datastructures/LP_Set.hxx", "include/datastructures/LP_Map.hxx", "include/datastructures/LP_MultiMap.hxx"],
 [("concurrent merge", "Concurrent_LP_*::unsafe_merge"), ("conversion", "LP_Set(Concurrent_LP_Set&&)"), ("copy", "unsafe_copy")],
 ["contents after the bulk operation"])

prop("C14", "Bit set behaves as a set of small integers",
 "After any sequence of operations the bit set contains exactly the indices that were set and not cleared, reports as size the number of set bits, reports from every setting call whether the bit was newly set, and merging, filtering, copying and iterating give exactly the union, the selection, an equal set and the ascending sequence of its members.",
 ["histories"],
 "all operation sequences over all index ranges, including block borders and unequal lower and upper bounds",
 "Errors sit at word borders and at unequal bounds, combinations a handful of tests do not sample.",
 ["include/datastructures/Bit_Set.hxx"],
 [("single bits", "_detail::Bit_Set::insert / isSet"), ("ranges", "_detail::Bit_Set batch operations"), ("merge / filter", "Bit_Set::merge / filter")],
 ["Bit_Set public operations"])

prop("C15", "Concurrent bit set loses no update",
 "Under every schedule of concurrent set and clear operations, exactly one of the concurrent calls that newly set a bit reports so, no bit set by one thread is lost by an operation of another thread on a different bit, and at quiescence the reported size equals the number of set bits.",
 ["schedules"],
 "all interleavings of threads operating on bits in the same and in different words",
 "A lost update needs two read-modify-write operations on one word to interleave.",
 ["include/datastructures/Bit_Set.hxx"],
 [("atomic bit update", "Concurrent_Bit_Set")],
 ["Concurrent_Bit_Set public operations"])

prop("C16", "Block store keeps every simplex under its id",
 "After any sequence of block reservations, single and concurrent writes, moves and merges of block stores, a lookup by id finds an entry exactly if the id lies in a block reserved for it, returns the value stored last under this id, and iteration visits every used entry exactly once in every split of the range.",
 ["histories", "schedules"],
 "all block layouts (gaps, adjacent and interleaved blocks, many blocks), merge orders, access patterns with and without cached position hints",
 "A stale position hint or an off-by-one at a block border answers wrongly only for particular layouts and access orders.",
 ["include/datastructures/BlockedArray2.hxx", "include/datastructures/BlockedArray.hxx"],
 [("block search with hint", "BlockedArray2::_findBlock"), ("merge", "BlockedArray2::merge"), ("iteration", "BlockedArray2 iterators")],
 ["BlockedArray2 public operations"])

prop("C17", "Point store returns each point under its id",
 "After any sequence of growth, insertion and lookup operations, the point store returns under each finite or artificial id exactly the point stored last under that id, tells finite from artificial ids and iterates over exactly the finite points in id order.",
 ["histories"],
 "all operation sequences, sizes and id patterns including the artificial ids at the top of the id range",
 "Index arithmetic between finite and artificial ids fails only at particular sizes.",
 ["include/Geometry.h", "include/datastructures/VectorAdapter2.hxx"],
 [("id to slot", "dPoints / VectorAdapter2"), ("artificial ids", "dPoint::isFinite")],
 ["dPoints public operations"])

prop("C18", "Splitting an iteration range loses and repeats nothing",
 "However often and wherever a parallel iteration range over a set, map, block store or bit set is split, the parts together visit each used entry exactly once, and a range that reports itself as empty contains no entry.",
 ["inputs", "schedules"],
 "all sizes, fill patterns, grain sizes and split trees",
 "A splitting error shows only for particular sizes and split trees chosen by the task scheduler at run time.",
 ["include/datastructures/LP_Set.hxx", "include/datastructures/LP_Map.hxx", "include/datastructures/BlockedArray2.hxx", "include/datastructures/Bit_Set.hxx"],
 [("half splitting", "_detail::iterator / range_type"), ("block store ranges", "BlockedArray2 range_type")],
 ["range(): split constructors, empty, is_divisible, begin/end"])

prop("C20", "Geometric predicates decide exactly",
 "For every simplex and point with finite coordinates whose products neither over- nor underflow, the orientation tests answer with the sign of the exact determinant, the robust in-sphere predicate answers with the sign of the exact lifted determinant, and the test whether a point lies in the circumsphere of a (not flat) simplex answers inside or on the sphere (strict variant: inside) independent of vertex order; this holds for every coordinate type, and whatever instruction set the code is compiled for.",
 ["inputs", "environment"],
 "all coordinate tuples, including collinear, coplanar, cocircular and cospherical ones and widely differing magnitudes; builds with and without fused multiply-add",
 "Degenerate and nearly degenerate inputs form a thin set that sampled tests never hit.",
 ["include/utils/Predicates.h", "src/lib/Geometry.cpp", "include/Geometry.h"],
 [("exact arithmetic", "include/utils/Predicates.h"), ("orientation normalisation", "Geometry.cpp GeometryHelper / GeometryCore")],
 ["dSimplex::orientation, inSphere; Predicates orient2d/orient3d/incircle/insphere"])

prop("C21", "Box, sphere and grid primitives agree with real geometry",
 "Containment and intersection tests between points, boxes and spheres answer as real geometry does, enlarging a box yields the smallest box containing both operands, and every point lies in exactly the grid cell computed for it.",
 ["inputs"],
 "all boxes, spheres, points and cell widths, including touching and degenerate ones",
 "Borders, zero-size boxes and negative coordinates are corner cases that need specific values.",
 ["include/Geometry.h", "include/load_balancing/BoxUtils.h", "include/load_balancing/Grid.h"],
 [("box", "Geometry.h dBox"), ("sphere", "Geometry.h dSphere"), ("grid cell", "Grid.h"), ("helpers", "BoxUtils.h")],
 ["return values of the primitives"])

prop("C22", "Point extents are exact",
 "The statistics of a point set report the exact minimum, maximum and midpoint per axis over precisely the selected points, for every distribution of coordinates (also entirely negative ones), and loading a point file adds exactly the points written in it, in order and after the points already present, and reports their exact extents.",
 ["inputs"],
 "all point sets and selections, all signs and magnitudes, sequential and parallel evaluation",
 "Parallel reductions with wrong neutral elements and sign-dependent initial values show only on unusual inputs.",
 ["include/Partitioner.h", "src/lib/Partitioner.cpp", "include/utils/Generator.h", "src/lib/Geometry.cpp"],
 [("statistics", "Partitioner.h dPointStats / getPointStats")],
 ["getPointStats result"])

prop("C23", "Experiment records survive store and load",
 "A record keeps for each trait the value added first or updated last, for each name the measurements in the order added, and for each counter the sum of its increments. Storing a record as text and loading it again yields an equal record with exactly the same traits, apart from the fields that only describe the run (host, revision, start and end time, run number); two records compare equal exactly if their traits agree apart from those fields.",
 ["inputs", "histories"],
 "all sequences of operations on records whose names and values cannot be mistaken for the separators in use (empty values and any separators included)",
 "The single existing test loads one record; particular value shapes such as numbers, empty values and repeated keys are not sampled.",
 ["include/utils/Timings.h", "src/utils/Timings.cpp"],
 [("text form", "ExperimentRun::str / constructor from string")],
 ["ExperimentRun text form and comparison"])

prop("C24", "Concurrent recording loses no measurement",
 "Under every schedule of threads that add measurements and counter increments to the same experiment record, the finished record contains exactly what was added: every counter equals the sum of its increments and every measurement list contains every value once.",
 ["schedules"],
 "all interleavings of recording threads",
 "A lost increment needs two updates to interleave between read and write.",
 ["include/utils/Timings.h", "src/utils/Timings.cpp"],
 [("recording", "ExperimentRun::incCounter / addMeasurement / addTrait")],
 ["ExperimentRun traits, measurements, counters"])

prop("C25", "Logger delivers each message once in order",
 "The logger writes exactly the messages whose level is within the configured verbosity, each exactly once, unmixed with others, with the indentation of the thread that issued it and in the order each thread issued them: under every schedule of threads when the collected log is printed afterwards, and in the order of the calls when logging live.",
 ["schedules", "configurations"],
 "all level combinations, thread counts and interleavings, indentations and live/deferred modes",
 "Interleaved or dropped lines show only under particular schedules and level combinations.",
 ["include/utils/Logger.h", "src/utils/Logger.cpp"],
 [("filtering and output", "Logger::addLogEntry / printLog")],
 ["stream output"])

prop("C26", "Text is recognised as number exactly by its grammar",
 "A text is recognised as an integer exactly if it consists of an optional sign followed by digits, as a decimal number exactly if it matches the usual sign, digits, point and exponent grammar, and splitting a text at a separator yields pieces that rejoin to the original.",
 ["inputs"],
 "all strings over digits, signs, point, exponent letters and other characters",
 "A handful of sample strings cannot distinguish a grammar from an approximation of it.",
 ["include/utils/StringUtils.h", "src/utils/StringUtils.cxx"],
 [("recognition", "is_int / is_float"), ("splitting", "split")],
 ["return values"])

prop("C28", "Generators deliver the requested points",
 "Every point generator delivers exactly the requested number of points under the ids one to n, all of them inside the requested bounds, reproducibly for equal seeds; a generator asked for by name is the one named; and a spatial sort only permutes the finite points.",
 ["inputs", "configurations"],
 "all generator kinds, point counts (also not divisible by the number of clusters), bounds and seeds",
 "Counts that do not divide evenly and off-origin bounds are not sampled by tests.",
 ["include/utils/Generator.h", "src/lib/SpatialSort.cpp", "include/load_balancing"],
 [("generators", "include/utils/Generator.h, include/load_balancing/*Generator.h"), ("sorting", "src/lib/SpatialSort.cpp")],
 ["generate() result"])

prop("C30", "Power-of-two helpers are arithmetically exact",
 "For every unsigned argument, rounding up to the next power of two, testing for powers, integer logarithms and bit counting return the mathematically defined value.",
 ["inputs"],
 "all argument values including zero, powers and their neighbours and the largest representable value",
 "Errors sit at single values of a 64-bit range.",
 ["include/utils/Misc.h"],
 [("helpers", "include/utils/Misc.h")],
 ["return values"])

prop("C31", "Sample graph is the Delaunay graph of the sample",
 "Every sample drawn by the load balancers consists of distinct given finite points, as many as asked for (at least one, at most all); the graph handed to the graph partitioner has one node per sample point and, for each edge of the Delaunay triangulation of the sample, one entry in either direction and nothing else, however the parallel construction is scheduled; its weights lie between 1 and 99 and are the linear image of the given weight function of the squared distance, and the blocks kept are those the graph partitioner returned for the number of parts asked for.",
 ["inputs", "schedules"],
 "all point sets and subsets, sample sizes, weight functions and schedules of the parallel construction",
 "No test covers the sampler; a missing, doubled or misplaced entry of the compressed rows only makes partitions worse or the external partitioner crash.",
 ["include/load_balancing/sample_partitioner/Sampler.h"],
 [("sample and id translation", "Sampler::generateSample, generateIdTranslation"), ("graph construction", "Sampler::makeGraph"), ("weights", "Mapper")],
 ["Sampler::operator() result: graph, points, partition, simplices", "call of kaffpa"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
