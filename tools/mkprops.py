#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":mechanism}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Saving curves: success means every curve is on disk, failure is reported",
  "When saving a collection of curves to a file reports success, the file holds the complete collection and reading it back returns the same curves, in order, with identical degree, periodicity, knots, control points and weights. When the device refuses the open, or any write, flush or close fails or stores fewer bytes, the save reports failure; the curves being saved are never altered and memory exhaustion is reported as such.",
  ["fault_sequences","histories","inputs"],"every sequence of saves and loads, every curve collection (including empty), every position at which the storage device or the allocator fails",
  "serialization_test writes one small file to a healthy disk; it never meets a full disk, an I/O error or a failing close, which only show after the data has left the stream buffer.",
  ["cmmcore/serialization.h"],["serialize each field in order, stream it to the file, report stream state to the caller"],
  [("file contents","bytes that reached the device")],["return value of the save","curves returned by the load","simulated disk contents"])
p("C02","Loading damaged curve data never reads past it and never invents curves",
  "Loading curves from a file or byte buffer that is truncated, torn, bit-flipped, or delivered with read errors never reads outside the given bytes, never hangs, and never requests memory out of proportion to the data. It either raises an error the caller can catch or returns exactly the curves the complete bytes encode; a file cut short or a failed read is always an error.",
  ["fault_sequences","inputs","crash_points"],"every prefix, torn write, corrupted byte and read fault of every saved collection",
  "Tests only load what they just saved intact; the damaged inputs are unbounded and their effect (silent over-read) is invisible to an assertion on results.",
  ["cmmcore/serialization.h"],["length-prefixed sections decoded in sequence from a byte cursor"],
  [("byte cursor","position in the buffer being decoded")],["exception or result of the load","memory accesses during the load","size of allocation requests"])
p("C03","Array storage: a write that returns can be read back as an equal array",
  "An array view of any shape - whole, sliced, stepped, reversed or reshaped - that was written to a file or byte buffer without an error being raised is read back as an array with the same shape and the same elements. Any refused, short or failing device operation while writing through the view's own calls or reading is reported to the caller instead of producing a different array.",
  ["fault_sequences","histories","inputs"],"every view history, element type and every position of a device fault (short transfer, error, failing seek or size query)",
  "memview_test round-trips one contiguous array on a healthy disk; neither non-contiguous views nor device faults occur.",
  ["cmmcore/memoryview.h"],["self-describing byte format: type, dimensions, shape, strides, offset, data"],
  None,["exception or return of write/read","elements of the array read back"])
p("C04","Damaged array data is rejected, not trusted",
  "Decoding an array from bytes that are truncated, torn or corrupted either raises an error or yields an array every element of which can be accessed without leaving the memory the decoder allocated; bytes cut short or recorded for another element type are always an error. It never reads outside the given bytes, never hangs, and never requests memory out of proportion to the data.",
  ["fault_sequences","inputs","crash_points"],"every prefix, torn write and corrupted byte of every encoded array",
  "The test suite contains no damaged buffer; the header carries attacker-sized counts, shapes and strides whose products overflow.",
  ["cmmcore/memoryview.h"],["bounds checks on the header before the data is copied"],None,
  ["exception or result","memory accesses during decoding and while reading every element","size of allocation requests"])
p("C05","Array views behave as windows on one n-dimensional array",
  "Through any sequence of slicing (single index, ranges, steps, negative values), first-axis indexing, reshaping and copying, each view addresses exactly the elements an n-dimensional array semantics assigns to it: reads and writes through one view are seen by every view of the same storage and by no other. Independent copies hold the full contents at the time of copying and are unaffected afterwards, and their elements live as long as any view of them, slices included; invalid requests raise an error and change nothing, also when memory runs out mid-operation.",
  ["histories","fault_sequences"],"every sequence of view operations by any number of holders of one buffer, with allocation failures at any point",
  "memview_test prints a handful of fixed slices; combinations of steps, offsets, nested slices and failures are not reached.",
  ["cmmcore/memoryview.h"],["shape/stride/offset arithmetic"],[("shape, strides, offset","which elements a view addresses")],
  ["elements read through each view","shape of each view","raised errors"])
p("C06","STEP export: returning normally means the complete file was stored",
  "Exporting a surface to a STEP file either returns after the complete exchange structure, from header to end marker, has reached the device, or raises an error. A device that refuses the open, fills up, or fails a write, flush or close at any byte never yields a normal return with an incomplete file, and a failing target stream is left in a failed state the caller can see.",
  ["fault_sequences","crash_points"],"every byte position at which the device can fill up or fail, every open/close failure, every surface",
  "step_test writes once to a healthy disk and checks nothing.",
  ["cmmcore/nurbs.h"],["stream the header, the entities and the trailer, then close"],None,
  ["exception or return","simulated disk contents"])
p("C07","STEP output is one closed, parseable, truthful entity set under any environment",
  "Every exported STEP structure parses, numbers each entity once starting from the caller's counter (which afterwards is the next free number), defines every entity it references, and its points, weights, knots, multiplicities and degrees are those of the exported shape to the printed precision. This holds for any number of shapes written to one stream, for several callers exporting at once, under any process locale, and the file's time stamp is the UTC time at which the export ran.",
  ["schedules","histories","configurations","inputs"],"every shape, every sequence of exports sharing a counter, every interleaving of exporting threads, clock value and process locale",
  "No test parses STEP output, exports two shapes into one file, or exports from two threads or under another locale or clock.",
  ["cmmcore/nurbs.h","cmmcore/utils.h","cmmcore/nurbs_utils.h"],["running entity counter shared across nested writers","wall clock to UTC text"],
  [("entity counter","next free entity number")],["text written","counter after the call"])
p("C08","Editing a curve never changes its shape and never half-happens",
  "Through any history of knot insertion, refinement, removal of inserted knots, splitting, Bezier decomposition, copying, moving, normalising, re-insertion, closing and replacement of the control points, a curve - rational or not - keeps evaluating to the same points as the mathematical curve it stands for, pieces cover the parent exactly, its bounding box encloses it, and knot vector, control points and degree stay consistent. If memory runs out during an edit, or the edit is refused, the error reaches the caller and the curve is exactly as before, so that retrying succeeds.",
  ["histories","fault_sequences","inputs"],"every sequence of edits, every parameter and multiplicity, rational and non-rational, with an allocation failure at any point of any edit",
  "Tests apply one or two edits to one curve with plenty of memory; the edit history, weights and the allocation at which memory ends are unbounded.",
  ["cmmcore/nurbs.h","cmmcore/nurbs_utils.h"],["knot insertion on control points and knots in two steps","split by repeated insertion"],
  [("control points / knots / degree / domain","the state that must stay mutually consistent")],["points evaluated after each step","state after a failed step"])
p("C09","Editing a surface never changes its shape and never half-happens",
  "Through any history of knot insertion, splitting, subdivision, Bezier decomposition, isocurve and boundary extraction in either direction, copying and moving, a surface - rational or not - keeps evaluating to the same points as the mathematical surface it was created from; pieces cover the parent exactly, extracted curves lie on it, the bounding boxes of the surface and of extracted curves enclose them, and size, knots, control points and domain stay consistent. If memory runs out during an edit, or the edit is refused, the error reaches the caller and the surface is exactly as before, so that retrying succeeds.",
  ["histories","fault_sequences","inputs"],"every sequence of edits in both directions, rational and non-rational, with an allocation failure at any point of any edit",
  "Tests subdivide a few fixed surfaces and print them; neither histories nor failures are compared with the mathematical surface.",
  ["cmmcore/nurbs.h","cmmcore/nurbs_utils.h","cmmcore/boundary_intersection.h"],["row-wise knot insertion with transposition","split and subdivide built on insertion"],
  [("control grid / knots / size / domain","the state that must stay mutually consistent")],["points evaluated after each step","state after a failed step"])
p("C10","Shapes can be read from many threads at once",
  "Any number of threads may evaluate, differentiate, measure, split, subdivide, decompose, extract, intersect, export or copy the same shapes at the same time through read-only access. No thread ever writes memory another is using without synchronisation, every thread gets exactly the answer it would get alone, and the shared shapes are unchanged.",
  ["schedules","inputs"],"every interleaving, at memory-access granularity, of any read-only operations on shared shapes",
  "All tests are single-threaded; a lazily filled cache or shared scratch buffer would pass every one of them.",
  ["cmmcore/nurbs.h","cmmcore/nurbs_utils.h","cmmcore/csx.h","cmmcore/boundary_intersection.h","cmmcore/point_inversion.h"],["read-only operations that keep no hidden state"],
  None,["every load and store of each thread","results of each thread"])
p("C11","Independent computations in different threads do not affect each other",
  "Threads that each work on their own curves, surfaces, point sets, indexes, arrays or streams never interfere: no two of them touch the same memory unsynchronised, and each obtains, under every interleaving, exactly the result it would obtain if the others did not run.",
  ["schedules","inputs"],"every interleaving of intersection, hull, separation, conversion, indexing, assembly, file and editing operations on disjoint data",
  "Tests never run two computations at once, so process-wide counters, scratch areas and caches are never contended.",
  ["cmmcore/ssx.h","cmmcore/csx.h","cmmcore/ccx.h","cmmcore/gauss_map.h","cmmcore/convexhull.h","cmmcore/gjk.h","cmmcore/monomial.h","cmmcore/polyline.h"],["recursive algorithms with no process-wide state"],
  [("process-wide variables","anything two callers can both reach")],["every load and store of each thread","results of each thread"])
p("C12","Answers depend only on the arguments",
  "Repeating a call with equal arguments gives bit-identical results no matter where the allocator places objects, what values unused or recycled memory contains, which calls ran before it in the process, what the object receiving the result held, or what the clock, locale or random device report; a call leaves the settings later calls depend on (floating-point mode, locale) as it found them. No operation reads memory that was never written or already released.",
  ["histories","configurations","inputs"],"every allocator placement and reuse policy, every garbage pattern in heap and stack, every preceding call history",
  "A test run sees one heap layout and mostly zeroed memory; containers keyed by address, uninitialised fields and leftover state then happen to work.",
  ["cmmcore/ssx.h","cmmcore/csx.h","cmmcore/gauss_map.h","cmmcore/convexhull.h","cmmcore/_convexhull","cmmcore/polygon.h","cmmcore/gjk.h","cmmcore/separability.h","cmmcore/monomial.h","cmmcore/point_inversion.h"],["value-only computation"],
  None,["results compared across simulated memory worlds","memory accesses outside live storage"])
p("C13","Running out of memory in a computation is reported and leaves no trace",
  "If any allocation fails during an evaluation, derivative, length, intersection, hull, separation, conversion, projection or index query, the caller receives the allocation failure as an ordinary error: the process is not terminated, arguments are unchanged, nothing stays allocated beyond what the caller holds, and repeating the call with memory available gives the normal answer. No computation that succeeds leaves memory allocated that its caller does not own.",
  ["fault_sequences","inputs"],"every allocation of every computation, failed one at a time or in bursts",
  "Tests never see a failing allocation; the number of failure points is the number of allocations of every call.",
  ["cmmcore/nurbs.h","cmmcore/nurbs_utils.h","cmmcore/csx.h","cmmcore/ccx.h","cmmcore/ssx.h","cmmcore/convexhull.h","cmmcore/gjk.h","cmmcore/monomial.h","cmmcore/bvh.hpp"],["resource ownership by value types"],
  None,["exception seen by the caller","live allocations after the call","arguments after the call","result of the retry"])
p("C14","The point index always equals the set of points put into it",
  "After any sequence of building, inserting and querying, the point index reports the number of points it holds, its box query returns exactly the stored points inside the closed box with their multiplicities, and its nearest query returns a stored point at minimal distance (an error when empty). A copy of an index answers like the original. An allocation failure during a build or insertion reaches the caller, leaks nothing, and leaves an index whose answers correspond to a set of points it really holds - for an insertion, exactly the points held before.",
  ["histories","fault_sequences"],"every history of build/insert/query including duplicates and collinear points, with an allocation failure at any point",
  "kdtree_test runs one fixed build and two queries and compares nothing.",
  ["cmmcore/kdtree.h"],["median split build","axis-alternating insertion","pruned search"],[("tree","stored points"),("size","their number")],["query results","reported size","allocator state"])
p("C15","The box hierarchy finds exactly the overlapping boxes",
  "For any set of boxes, hierarchies built by either method answer queries with exactly the objects an exhaustive scan finds, each once, whatever the order in which boxes were supplied and while other threads query the same hierarchy. Box-overlap, point-containment and iterative pair queries count boxes that merely touch; the recursive pair query reports the pairs whose common volume is not negligible. Copied, assigned and joined hierarchies answer the same as the original. If memory runs out while building or querying, the error reaches the caller, nothing leaks, the boxes are unchanged and a retry gives the full answer.",
  ["histories","schedules","fault_sequences","inputs"],"every box set (nested, touching, identical, flat), build method, supply order, interleaving of readers and allocation failure",
  "bvh_test times one random scene and compares nothing with an exhaustive scan.",
  ["cmmcore/bvh.hpp","cmmcore/aabb.h"],["top-down splitting and bottom-up pairing","pruned traversal"],None,["query results","allocator state"])
p("C16","Assembling segments into polylines uses every segment exactly once",
  "Whatever the order, direction and memory placement in which segments are supplied, the assembled polylines consist of exactly the supplied segments, each used once, with consecutive segments sharing an end point; chains that meet only end-to-end come out as single open or closed polylines. Assemblies appended to an existing result keep what was there, and a failing allocation leaves the input unchanged and is reported.",
  ["histories","inputs","fault_sequences"],"every arrival order and orientation of the segments of any set of open and closed chains, every address layout, every allocation failure",
  "No test includes this code at all.",
  ["cmmcore/polyline.h"],["spatial index of segment ends, greedy extension at both ends"],[("processed set","segments already used")],["polylines returned"])
p("C17","Numeric drivers survive misbehaving user functions",
  "Integration, length inversion, bounded minimisation and Newton descent call the user's function a bounded number of times and return, whatever it returns - including infinities, NaN and discontinuities. An exception thrown by the function at any call reaches the caller unchanged, nothing leaks, the next call behaves as if it had not happened; the minimiser never evaluates outside the bounds, reports the true value at the point it returns, flags NaN and exhausted budgets; the descent never ends higher than it started; and on well-behaved functions the answers, and the reported integration error, meet the requested tolerance within a modest number of calls (a parabola is minimised in a handful).",
  ["fault_sequences","inputs","histories"],"every call number at which the function misbehaves, every kind of misbehaviour, nested use of one driver inside another's function",
  "Tests pass smooth well-behaved functions; the call at which a function fails and the resulting non-termination cannot be sampled.",
  ["cmmcore/integrate.h","cmmcore/minimize_scalar.h","cmmcore/newthon2.h"],["adaptive recursion with depth bound","golden section/parabolic bracket","damped Newton with line search"],
  None,["sequence of evaluation points","result, status and counts","exceptions"])
p("C18","Random helpers stay in range, fill everything, and tolerate concurrency",
  "Random numbers requested between two limits lie within them, a request for n random points delivers exactly n points all of whose coordinates lie within the limits and are spread over the whole range, for any seed the entropy source delivers. Several threads may draw at once without corrupting each other, and an entropy source or allocator that fails makes the call fail with an error without poisoning later calls.",
  ["schedules","fault_sequences","configurations"],"every entropy value and failure, every interleaving of drawing threads, every range and count",
  "Tests use the helpers from one thread with a healthy entropy device to make inputs and never look at the values.",
  ["cmmcore/utils.h"],["one lazily seeded generator"],[("generator state","shared by all callers")],["values drawn","memory accesses of the drawing threads"])
p("C19","Elapsed time and time stamps follow the right clock",
  "A stopwatch reports exactly the time that passed between its start and stop, in nanoseconds, for any number of restarts and regardless of wall-clock steps, slews or daylight changes; before the first stop it reports zero. Time stamps show the wall-clock time of the call as a valid calendar date-time, in UTC for exported files and in local time for the local helper, for any clock value, and concurrent callers never see each other's stamp.",
  ["schedules","configurations","histories"],"every clock value including leap days, negative and far-future times, every clock step between calls, every time zone, every interleaving of callers",
  "Tests read the real clock once and print; wall-clock steps, time zones and concurrent calls do not occur.",
  ["cmmcore/utils.h","cmmcore/nurbs.h"],["monotonic clock for durations, wall clock for stamps"],None,["reported duration","time stamp text","memory accesses of concurrent callers"])

# --- properties of single, stateless computations: stated, not claimed (see DESIGN.md) ---
def na(id,title,statement,files,mech,text="every input"):
    p(id,title,statement,["inputs"],text,"Tests compute a few fixed cases and mostly print the result; the input space is continuous.",files,[mech])
na("N01","Derivatives and tangents agree with the curve or surface","Derivatives, tangents and normals returned for a curve or surface equal those of the mathematical shape up to the method's stated error, for every parameter in the domain, degree and weight set.",["cmmcore/nurbs.h","cmmcore/nurbs_utils.h"],"basis function derivatives, finite differences")
na("N02","Curve-curve intersection is sound and complete","Every reported parameter pair evaluates to points closer than the tolerance, and every transversal crossing of the two curves is reported.",["cmmcore/ccx.h"],"recursive bisection on control boxes")
na("N03","Curve-surface intersection is sound and complete","Every reported intersection lies on both shapes within tolerance and every transversal crossing is reported with the right kind.",["cmmcore/csx.h"],"Newton search with subdivision and separability tests")
na("N04","Surface-surface intersection finds every branch","Every branch of the intersection of two surfaces receives at least one start point, and every start point lies on both surfaces within tolerance.",["cmmcore/ssx.h","cmmcore/boundary_intersection.h"],"Gauss map separability and boundary intersection")
na("N05","Convex hulls contain the input and use only input points","The hull of a point set is made of input points, is convex and contains all input points, in two and three dimensions including degenerate sets.",["cmmcore/convexhull.h","cmmcore/_convexhull/convexhull2d.h","cmmcore/_convexhull/quickhull.hpp"],"quickhull / monotone chain")
na("N06","Separation tests never separate overlapping sets","Overlap, separation and minimum-distance tests between convex point sets agree with the exact geometry outside the tolerance band.",["cmmcore/gjk.h","cmmcore/separability.h","cmmcore/aabb.h"],"GJK, separating axes, spherical projection")
na("N07","Closest points are closest","Closest points on lines, segments, triangles and simplices are at the minimal distance.",["cmmcore/closest_point.h","cmmcore/gjk.h"],"region tests")
na("N08","Power-basis and Bezier forms describe the same polynomial","Converting a Bezier surface to power basis and back, and forming normals or products in power basis, preserves the polynomial.",["cmmcore/monomial.h","cmmcore/binom.h","cmmcore/gauss_map.h"],"binomial basis change")
na("N09","Small dense linear algebra is exact to rounding","Matrix products, determinants, inverses, transposes and linear solves satisfy their defining identities to rounding error.",["cmmcore/matrix.h","cmmcore/newthon2.h"],"closed-form and Cholesky algebra")
na("N10","Planes, polygons and vectors obey their geometric definitions","Plane evaluation, projection, intersection, polygon area/normal and vector operations agree with their definitions.",["cmmcore/plane.h","cmmcore/polygon.h","cmmcore/vec.h","cmmcore/numeric_utils.h"],"closed-form formulas")
na("N11","Point inversion returns the foot point","Point inversion on a curve or surface returns parameters whose point is a local closest point to the query when started close enough.",["cmmcore/point_inversion.h"],"Newton iteration with cosine criterion")
na("N12","Arc length agrees with the curve","The length between two parameters equals the arc length within the requested tolerance and is additive over adjacent intervals.",["cmmcore/nurbs.h","cmmcore/integrate.h"],"adaptive Simpson on speed")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
