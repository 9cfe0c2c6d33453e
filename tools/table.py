I = ["inputs"]
H = ["inputs", "histories"]
SEEN = "Held on the executions run, never more: "

p("C01", "A spatial tree answers with the true nearest point",
  "For every set of points with finite coordinates held by a search tree, however the tree was built or grown, a nearest-point query returns one of the held points and no held point is closer to the query than it. An empty tree, and only an empty tree, answers with nothing.",
  H, "every finite point set, dimension, insertion order, query point, and interleaving of insertions and queries",
  "the tests query a handful of fixed points in one ten-point tree; the pruning rule must be right for every arrangement, above all for ties and queries just across a splitting plane",
  [KD, UT], [("descent and pruning by axis distance", KD+" KDNode::nearest"), ("squared distance", UT+" distance_squared")],
  "runtime monitoring: every query answered beside an exact brute-force reference model", SEEN+"hundreds of thousands of trees per quick run; inputs where rounding could excuse a wrong answer are judged up to that rounding",
  observe=["return value of every query"])
p("C02", "A spatial tree is a set: every distinct point once, counts exact",
  "After any history of insertions a search tree holds exactly the distinct points inserted, each once: a full traversal visits each of them exactly once, and the reported size equals their number and is zero exactly when the tree reports itself empty. Inserting a point already held changes nothing, wherever it sits in the tree. A copy of a tree is independent of the original.",
  H, "every sequence of insertions, duplicates and copies at any position of the history",
  "the tests insert one duplicate of the root or of one branch; duplicates deeper in the tree, on either side of equal coordinates, are not reached",
  [KD], [("duplicate test on the way down", KD+" KDNode::insert"), ("element counter", KD+" KDTree::insert")],
  "runtime monitoring: insertion histories replayed against a set model, structure traversed at quiescent points", SEEN+"the count is read after every insertion, the whole content at random points of the history",
  state=[("element_count", "number of distinct points", KD)], observe=["len, is_empty after each insertion", "traversals"])
p("C03", "Nearest-point queries on a tree avoid scanning most points",
  "On a tree grown from points in random order, a nearest-point query examines a number of points far below the size of the tree and growing much slower than it, and so does an insertion.",
  I, "every randomly ordered point set of the sizes the tree is meant for",
  "the tests look only at answers, and a tree that visits every node answers correctly",
  [KD], [("pruning of the opposite branch", KD+" KDNode::nearest"), ("alternating split axis", KD+" KDNode::insert")],
  "runtime monitoring: operations counted by an instrumented scalar type inside the real code", SEEN+"2000 to 32000 points in two and three dimensions; thresholds a factor above what is observed",
  observe=["subtractions and comparisons of coordinates"])
p("C04", "Rewriting a tree in place visits every point once and keeps answers right",
  "A mutating traversal hands out every held point exactly once and stores what the visitor leaves there. When the rewrite keeps the order of coordinates on every axis, the tree keeps its size and afterwards answers nearest-point queries, and accepts insertions, correctly for the rewritten points.",
  H, "every tree and every sequence of order-preserving rewrites, queries and insertions",
  "the one test adds a constant to a few points and looks at one answer",
  [KD], [("in-order mutable walk", KD+" KDNode::traverse_branch_mut")],
  "runtime monitoring: rewritten trees checked against a set model and brute force", SEEN+"translations and positive scalings are the order-preserving rewrites used")
p("C05", "The linear nearest-point search returns a closest point",
  "For every query and every list of points with finite coordinates the linear search returns a point of the list that no other point of the list beats, whatever the order of the list, and nothing exactly when the list is empty.",
  I, "every finite list of points, in every order, float or integer, of any dimension",
  "the tests use one cloud and one query",
  [NN, UT], [("running minimum", NN), ("squared distance", UT)],
  "runtime monitoring: answers judged against an independent exact scan", SEEN+"lists up to 3000 points")
p("C06", "Lexicographic sorting orders, permutes and rejects NaN alike in all three forms",
  "The sorted copy, the sorted references and the in-place sort all give the same lexicographically ascending order and a permutation of the input, the references pointing into the input itself. All three refuse, leaving the input untouched, exactly when a coordinate is NaN or the points have no dimension.",
  I, "every list of points of any dimension and coordinate type, with NaN anywhere",
  "the tests sort a few small clouds; NaN in a late coordinate and extreme integers are not sampled",
  [LX, NAN], [("input validation", LX+" validate_input"), ("comparison folded over axes", LX+" lex_sort_func")],
  "runtime monitoring: every result checked for order, permutation and agreement", SEEN+"bit patterns and addresses are compared, so swaps of equal points show")
p("C07", "Voxel downsampling returns one mean per occupied voxel",
  "Downsampling returns exactly one point for every occupied grid cell of the given size, cells being half-open and anchored at the origin, also for negative coordinates, and that point is the mean of the input points in the cell. The order of the result is free; the order of the input does not matter beyond rounding.",
  I, "every cloud, dimension, coordinate type and positive cell size",
  "the test downsamples one cloud and checks a few voxels; negative coordinates, cell walls and single-cell clouds are not sampled",
  [DS], [("cell by floor of the quotient", DS), ("mean per cell", DS)],
  "runtime monitoring: cells and means recomputed independently, outputs matched one to one", SEEN+"points within rounding of a cell wall are left out unless the quotient is exact")
p("C08", "The centroid is the mean of all points",
  "The centroid of a non-empty cloud is the arithmetic mean of its points, to within the rounding of a sum of that length, whatever their order, number or dimension; the centroid of nothing is the origin.",
  I, "every cloud whose sums stay finite", "the tests average a few points; counts, offsets and dimensions vary without bound",
  [PC], [("fold and division", PC+" calculate_point_cloud_center")],
  "runtime monitoring: mean recomputed in compensated arithmetic", SEEN+"up to 75000 points")
p("C09", "Generated clouds have the size asked for, lie in their ranges and repeat",
  "A generated cloud has exactly the number of points asked for, every coordinate lies within the inclusive range given for its own axis, the points spread over the ranges rather than repeat, and the same call gives the same points again.",
  I, "every count and every set of ranges", "documented as not tested in the source itself",
  [PC], [("fixed seed and per-axis uniform draw", PC+" generate_point_cloud")],
  "runtime monitoring: bounds, counts, repeatability and spread of every generated cloud", SEEN+"spread is judged only by coarse statistics")
p("C10", "Transforming a cloud applies the rigid motion to every point in order",
  "Transforming a cloud returns one point per input point, in order, each the rotated and then translated input to within rounding, and leaves the input alone; transforming back with the inverse returns to the start within rounding.",
  I, "every cloud and every rigid motion in two and three dimensions", "documented as not tested in the source itself",
  [PC], [("per-point transform", PC+" transform_point_cloud")],
  "runtime monitoring: each image recomputed from the matrix of the motion", SEEN+"four kinds of rotation representation")
p("C11", "Registration rejects every invalid input and only those",
  "Registering clouds fails at once, naming a condition that is present, when the source or the target is empty, no iterations are allowed, or a threshold is not a number or not greater than machine epsilon; it never reports such a condition when it is absent. A single step against an empty target reports that no neighbour exists.",
  ["inputs", "configurations"], "every combination of clouds and configuration values, valid or not",
  "the tests try each condition alone with one value; combinations, NaN and boundary values are not sampled",
  [ICP, ICPT], [("validation before the loop", ICP+" icp")],
  "runtime monitoring: error returned judged against the set of conditions present", SEEN+"which of several present conditions is named is free")
p("C12", "Each registration step applies the best rigid motion for the current matches",
  "A registration step matches every moved source point with its nearest target, moves the cloud by the rigid motion that minimises the sum of squared distances to those matches (a proper rotation, never a mirror image), composes that motion into the running transform, and leaves the moved cloud equal to the source under that transform. It reports as error the sum of squared distances to those matches after the motion, and counts as converged exactly when that error falls below the absolute threshold or changes by less than the interval threshold. An unconverged step stores the new error and returns the centroids it aligned; a converged one leaves the stored error as it was.",
  I, "every pair of clouds, current transform, stored error and thresholds",
  "the tests take one step on one cloud with a fixed displacement; optimality, mirrored clouds, flat and degenerate ones cannot be enumerated",
  [ICP, ICPH, ISO, UT], [("matching, covariance and centroids", ICPH), ("rotation from the decomposition, reflection repair", ISO+", "+UT), ("convergence test", ICP+" icp_iteration")],
  "runtime monitoring: every step recomputed by an independent optimum (closed form in 2D, quaternion method in 3D)", SEEN+"optimality is judged where the nearest matches are unambiguous, to within the accuracy of the 3x3 decomposition")
p("C13", "Registration never makes the fit worse and stays a finite rigid motion",
  "From one registration step to the next the sum of squared distances from the moved source points to their nearest targets does not grow beyond rounding, and the running transform stays finite with a unit rotation, on degenerate clouds too.",
  H, "every pair of clouds and every number of steps", "the tests look at the end of a converging run",
  [ICP, ICPH, ISO], [("optimal motion for nearest matches", ICP)],
  "runtime monitoring: residual recomputed by brute force between steps and checked for monotony", SEEN+"up to 12 steps per pair")
p("C14", "Whole registration equals running its steps one by one",
  "Registering two clouds gives what repeating single steps from the identity, an unmoved copy of the source and the largest finite error gives: the same transform, error and zero-based number of the converging iteration, or a failure to converge exactly when none of the allowed iterations converges.",
  ["inputs", "configurations"], "every pair of clouds and every valid configuration", "the tests check success on one pair per precision and dimension",
  [ICP], [("iteration loop", ICP+" icp")],
  "runtime monitoring: each run shadowed by a step-by-step run", SEEN+"steps within rounding of a threshold are not compared by outcome")
p("C15", "A registration that reports success tells the truth",
  "Every success reports a finite, proper rigid motion, an error not below the true sum of squared distances from the moved source to its nearest targets, not above what its last step started from, and an iteration number below the limit.",
  ["inputs", "configurations"], "every successful run", "the tests accept any success whose error is small",
  [ICP, ICPH, ISO], [("success record", ICP+" icp")],
  "runtime monitoring: every success re-judged from outside", SEEN+"judged within rounding")
p("C16", "Registration recovers small displacements",
  "When the source is a rigidly displaced copy of (part of) the target and no point moved by as much as half the smallest spacing of the target, registration converges within two iterations and its transform takes every source point onto its original, with an error near zero; with and without the search tree.",
  I, "every point set, rigid motion and order of points within that bound", "the tests recover one fixed displacement of one cloud",
  [ICP, ICPH, ISO, KD], [("nearest matches then optimal motion", ICP)],
  "runtime monitoring: known displacement compared with the recovered one", SEEN+"displacements up to 0.47 of the spacing")
p("C17", "The search tree changes registration's speed, not its result",
  "Registration with the search tree and without it gives the same outcome, transform, error and iteration number, whenever no source point is equally near two targets on the way; repeated target points do not matter.",
  ["inputs", "configurations"], "every pair of clouds without ties", "the tests use the tree for one cloud",
  [ICP, KD, NN], [("tree or linear matching", ICP+" icp_iteration")],
  "runtime monitoring: differential runs with and without the tree, step by step", SEEN+"runs are compared until a tie is met")
p("C18", "The pose update finds the best turn for any covariance",
  "From any finite covariance matrix, pair of centroids and previous pose, in two and three dimensions and both precisions, the pose update returns a proper rigid motion: a rotation that fits the matrix as well as any rotation can, up to rounding, combined with the translation that takes the transformed centroid of the source to that of the target. Mirrored, rank-deficient, zero, nearly symmetric and extremely scaled matrices are no exception.",
  I, "every finite matrix, centroids and pose", "the tests update one pose from one matrix; decompositions fail only near equal or vanishing singular values and at extreme scales",
  [ISO, UT], [("singular value decomposition and its scaling", ISO+" update_transform"), ("mirror image turned back", UT+" verify_rotation_matrix_determinant")],
  "runtime monitoring: each turn compared with the optimum from an independent closed form or Horn's quaternion method in f64", SEEN+"integer, almost-integer, low-rank, permutation and many-decade matrices are over-represented",
  observe=["the returned transform"])
p("C19", "A registration configuration holds exactly what was last set",
  "A configuration built by any sequence of setter calls holds, for each option, the last value set or else its default, independent of order and of other options. Setters and building never change the builder they are called on, so it can be reused; and a registration obeys the values it was given.",
  ["configurations", "histories"], "every sequence of setter calls, with reuse of builders", "the tests set each option once",
  [ICPT, ICP], [("copying setters", ICPT)],
  "runtime monitoring: built configurations compared with a model, and run", SEEN+"private fields are observed through the debug view and through behaviour")
p("C20", "The sorting hull is exactly the convex hull's corners in order",
  "For points whose turns the precision can compute exactly, the hull from the sorting algorithm is exactly the strict corners of the convex hull, each once, in clockwise order from the lexicographically least point, and nothing exactly when there are fewer than three points or all lie on one line. Declaring sorted input sorted changes nothing, repeated points change nothing, and input with NaN is refused when it has to be sorted.",
  I, "every finite point set, with duplicates and collinear runs, in any order", "the tests take a few fixed sets",
  [GS, PM, LX], [("monotone chain", GS+" build_hull_segment"), ("turn determinant", PM+" calculate_determinant")],
  "runtime monitoring: hulls compared with integer-arithmetic hulls", SEEN+"coordinate spans at most 2^12 (single) or 2^26 (double) units")
p("C21", "The marching hull goes round the convex hull once and always stops",
  "For points whose turns the precision can compute exactly, the marching algorithm returns, and its result contains every strict corner of the convex hull and otherwise only points on its boundary, each once, in clockwise order from the lexicographically least point. It gives nothing exactly when there are fewer than three points or all lie on one line.",
  I, "every finite point set, with duplicates and collinear runs, in any order", "the tests take a few fixed sets",
  [JM, PM], [("march by turn", JM), ("turn determinant", PM+" calculate_determinant")],
  "runtime monitoring: hulls compared with integer-arithmetic hulls, under a CPU budget", SEEN+"coordinate spans at most 2^12 (single) or 2^26 (double) units")
p("C22", "Hulls of arbitrary floats are simple and enclose every point within rounding",
  "For arbitrary finite coordinates both hull algorithms return a simple cycle made of input points whose region differs from the exact convex hull by no more than rounding relative to the extent of the set, so that no input point lies outside by more than that.",
  I, "every finite float point set, including nearly collinear, clustered and far-offset ones", "rounding only misleads an algorithm on inputs no one writes by hand",
  [GS, JM, PM], [("turn determinant", PM+" calculate_determinant")],
  "runtime monitoring: hulls measured against an exact-arithmetic hull", SEEN+"tolerance 256 ulps of the extent")
p("C23", "A hull with downsampling is the hull of the downsampled points",
  "Given a voxel size, either hull algorithm returns the hull of the voxel means of its input, or nothing if those are fewer than three or on one line, whether or not the input was declared sorted.",
  ["inputs", "configurations"], "every point set, voxel size and sorted declaration", "the tests downsample one set",
  [GS, JM, DS], [("downsampling before the scan", GS+", "+JM)],
  "runtime monitoring: hull recomputed from independently computed voxel means", SEEN+"voxel sizes are powers of two so that no rounding decides membership")
p("C24", "Hulls are right for every point type over its whole range",
  "For each of the twelve supported point types, signed or not, and in both precisions, both hull algorithms are right for points anywhere in the range of the type, its extremes included, as long as the spans are ones the precision multiplies exactly.",
  I, "every point type, every place in its range", "the tests use float points and one integer type far from its limits",
  [GS, JM, PM], [("difference taken without wrapping", PM+" calculate_difference")],
  "runtime monitoring: typed hulls compared with integer-arithmetic hulls", SEEN+"spans at most 2^11 (single) or 2^25 (double)")
p("C25", "Point-in-polygon is the even-odd rule for every polygon",
  "For every polygon, simple or self-crossing, of either orientation, with horizontal, repeated or collinear vertices, a point off the boundary is reported inside exactly when a ray from it crosses the outline an odd number of times; the last vertex is joined to the first.",
  I, "every polygon and every point off its boundary", "the tests take one square-like polygon; rays through vertices and along edges are the classic misses",
  [PIP], [("half-open crossing test", PIP+" does_ray_intersect_polygon_segment")],
  "runtime monitoring: answers compared with exact-arithmetic parity along another ray", SEEN+"points within rounding of an edge are not judged")
p("C26", "Testing many points equals testing each one",
  "Testing a list of points against a polygon gives one answer per point, in order, each the same as testing it alone, points outside the polygon's bounding box, NaN and infinite points included; it gives nothing exactly when the polygon has fewer than three vertices.",
  I, "every list of points and every polygon", "the tests use one polygon and a few points",
  [PIP, PM], [("bounding-box short cut", PIP+" are_multiple_points_in_polygon")],
  "runtime monitoring: batch answers compared with single answers and parity", SEEN+"up to 120 points per batch")
p("C27", "Point-in-polygon does not depend on how the outline is written down",
  "The answer for a point off the boundary stays the same when the outline starts at another vertex, runs the other way, has an edge split or a vertex repeated, or when polygon and point are moved or scaled together exactly.",
  I, "every polygon, point and such rewriting", "relations between runs are not tested at all",
  [PIP], [("half-open crossing test", PIP)],
  "runtime monitoring: metamorphic runs compared", SEEN+"exact lattices, so that rounding excuses nothing")
p("C28", "Polygon extents are the tight bounding box",
  "The extents of at least three vertices are, per axis, exactly the least and the greatest coordinate, in any dimension and anywhere in space; fewer vertices have none.",
  I, "every list of vertices", "the tests use one polygon; sets wholly on one side of zero, or in more dimensions, are not sampled",
  [PM], [("running minimum and maximum", PM+" calculate_polygon_extents")],
  "runtime monitoring: extents recomputed for every list", SEEN+"one to four dimensions")
p("C29", "Grid lines are connected, monotone and hug the ideal line",
  "A line plotted between two grid cells starts at the first and ends at the second, has one cell per unit of the longest axis plus one, moves on each axis only towards the end and by at most one cell at a time, moves along a longest axis at every step, and stays less than one cell from the ideal line, in any dimension, direction and output type.",
  I, "every pair of grid cells", "the tests plot four lines",
  [BR], [("error accumulation per axis", BR+" plot_bresenham_line")],
  "runtime monitoring: every plotted cell judged against the ideal line", SEEN+"lines up to 20000 cells")
p("C30", "Lines between arbitrary endpoints end, start and finish where asked",
  "Plotting between any two finite endpoints terminates with the whole number of units of the longest axis plus one points, the first and last being the endpoints, unit steps in between within a cell of the ideal line, and every output type being the conversion of the same trace.",
  I, "every pair of finite endpoints, fractional or beyond the exactly representable integers", "the tests use small whole coordinates",
  [BR], [("step count fixed in advance", BR+" plot_bresenham_line")],
  "runtime monitoring: traces judged under a CPU budget", SEEN+"at most 20000 steps")
p("C31", "Great-circle distance is a metric that matches the angle between places",
  "The distance between two places is finite, lies between zero and half the circumference, is symmetric, scales with the radius, is zero for the same place, ignores whole turns of longitude, and equals the radius times the angle between the places to within rounding, poles and antipodes included. A coordinate that is not a number gives a distance that is not a number.",
  I, "every pair of places on the sphere and every radius", "the tests measure a few city pairs; antipodes, poles and neighbouring places are where the formula fails",
  [HV], [("haversine", HV+" calculate_haversine_distance")],
  "runtime monitoring: distances compared with a vector-angle oracle", SEEN+"tolerance conditioned on the distance: 16 ulps, square root of an ulp at the antipode")
p("C32", "Bearings are normalised and point along the great circle",
  "The initial bearing lies in the range from zero to a full turn and, wherever a direction exists, equals the clockwise angle from north of the great circle leaving the first place towards the second, to within rounding.",
  I, "every pair of places", "the tests measure a few pairs, none due west or across the date line",
  [HV], [("two-argument arctangent, normalised", HV+" calculate_sphere_bearing")],
  "runtime monitoring: bearings compared with a tangent-plane oracle", SEEN+"tolerance conditioned on the distance; a value that rounds to a full turn is accepted in single precision")
p("C33", "Premade functions equal the generic ones they are named after",
  "Every premade single- and double-precision function gives, for every input, exactly what the generic function with the types in its name gives.",
  ["inputs", "programs"], "every premade function and every input", "the tests call a few of about a hundred premade functions",
  [BR, GS, JM, PIP, HV, ICP], [("generating macros", BR+", "+GS+", "+JM+", "+PIP+", "+HV+", "+ICP)],
  "runtime monitoring: differential calls of every premade function beside the generic one", SEEN+"bit for bit; as regions where voxel order is free")
p("C34", "Every feature set builds and computes the same results",
  "The library compiles with each combination of its features and without any, without the standard library too, and every public function gives the same results in all of them; instrumentation only records, and every span entered is left again.",
  ["configurations", "inputs"], "every feature combination and input", "the tests run under one feature set at a time, most never",
  [LIB, DS, A+"../Cargo.toml", PM], [("alloc in place of std", LIB), ("conditional modules and attributes", PM)],
  "runtime monitoring: one program per feature set run on one workload and compared, spans recorded by a subscriber", SEEN+"six feature sets; transcendental results within rounding, voxels as sets",
  observe=["outputs of the programs", "tracing spans"])
p("C35", "No memory errors, undefined behaviour or data races",
  "Whatever safe calls a user makes, from one thread or from many on shared data, the library performs no invalid memory access, no undefined behaviour and no data race.",
  ["inputs", "schedules"], "every input and every interleaving of calls on shared data", "the tests run without any sanitizer and in one thread",
  [LIB, KD, PC], [("safe Rust throughout", LIB)],
  "sanitizers: AddressSanitizer on every monitor's workload, ThreadSanitizer and Miri on threaded ones", SEEN+"the library has no unsafe code today, so this guards against its arrival; red zones miss some overflows and Miri sees small workloads")
p("C36", "Calls are pure: repeatable, order-free and safe to run side by side",
  "Every function gives bit for bit the same answer for the same input, however often, in whatever order and from however many threads at once it is called, on shared inputs and a shared tree, which it leaves as they were; and once its answer is dropped, a repeated call has kept no memory.",
  ["inputs", "schedules", "histories"], "every mix of calls and every interleaving", "the tests call each function once, alone",
  [LIB, KD, ICP, DS], [("no shared state", LIB)],
  "runtime monitoring: recorded call histories from one and several threads compared, under ThreadSanitizer in C35", SEEN+"voxel order, free by contract, is normalised")
p("C37", "Large and degenerate inputs stay within stack, memory and time",
  "Inputs of hundreds of thousands of points, however arranged, are processed without overflowing the stack, with heap use proportional to the input and without superlinear stalls where the algorithm has none; an unused search tree is never built.",
  I, "every large input, in adverse arrangements", "the tests use a dozen points",
  [KD, ICP, GS, JM, LX, DS, BR], [("recursion by tree depth", KD), ("vectors sized by the input", LIB)],
  "runtime monitoring: heap counted by the allocator, CPU and stack limited by the process", SEEN+"budgets are about forty times what is usual; one finding is recorded (ascending insertion)",
  observe=["allocator", "process limits"])
p("C38", "The parts of the library agree with each other",
  "On one cloud the parts agree: both hulls bound the same region and hold every point by the polygon test, extents of hull and cloud coincide, the tree and the scan find the same distances, moving the cloud moves hull, centroid and voxels with it, outlines plotted between hull corners stay inside the extents, and registering the cloud with itself gives the identity.",
  I, "every cloud", "each module is tested alone",
  [KD, NN, GS, JM, PIP, PM, PC, DS, LX, BR, ICP], [("shared point representation", LIB)],
  "runtime monitoring: whole-library scenarios, each part's answer judged by the others", SEEN+"lattice clouds, so that agreement is exact")
p("C39", "No coordinate value makes a call panic, hang or invent points",
  "Whatever float values the coordinates hold, NaN of either sign, infinities, the largest and the smallest included, every public function returns: sorting and hulls refuse NaN, selections only ever hand back points they were given, sizes are kept, an odd point elsewhere does not hide a near one from the linear search, the polygon test never claims a NaN point, and a registration never reports success for a source that is not finite or with a result that is not.",
  I, "every bit pattern in every coordinate of every argument", "the tests use well-behaved coordinates, with single NaN in two functions",
  [LX, PC, KD, NN, ICP, GS, JM, PIP, HV, BR], [("refusal of NaN", LX+" validate_input"), ("comparison of an odd error", ICP+" icp_iteration"), ("order among points", JM+" jarvis_march")],
  "runtime monitoring: every function run on clouds laced with odd values, panics, hangs and heap watched, answers judged by membership and size", SEEN+"two findings are recorded: a NaN inserted into a tree, and line ends that are not finite")
