"""Single source of properties.jsonl and MANIFEST.json (python3 meta/make.py)."""
VG = "value-graph evaluation of the type-checked AST (gated values, loop summaries) compared with the defining formula by normal form / identity testing"
P = []


def p(id, title, statement, text, why, files, mech, technique, note, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


p("C01", "Parallel loops are free of data races",
  "No two iterations of a loop run in parallel access the same memory with at least one of them writing, unless both accesses are inside the same critical section or belong to a declared reduction; "
  "this covers prediction, association, measurement update, pruning, random sampling and particle arithmetic. Functions called from such loops modify no global state that threads share.",
  "all thread interleavings, all numbers of targets, reports, clusters, components and particles",
  "A race shows only under a particular schedule; the tests use a handful of targets and cannot control the schedule.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/gm.hpp", "include/pf.hpp", "include/statistics.inc", "include/statistics.hpp"],
  ["SILMB::predict", "SILMB::correct", "SILMB::correct_cluster", "Cluster::correct", "PF::linear_update", "nrand", "urand"],
  "effect analysis of every OpenMP region: access paths of two different iterations are compared for disjointness, common critical section or reduction", 
  "assumes list elements point to different objects (each target and report belongs to one cluster)", over=("inputs", "schedules"))
p("C02", "The target list and spatial index are only used under the tree lock",
  "Whenever a tracker operation reads, searches or changes the list of targets, the spatial index over them or the counter that numbers them, it does so inside one and the same critical section. "
  "This holds for prediction, correction, births, all queries and metrics and the printed representation, so that threads sharing a tracker never see these structures half-updated.",
  "all schedules of concurrent operations on one tracker",
  "Unprotected accesses corrupt state only under rare schedules; the tests call the tracker from one thread.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/sensors.hpp", "include/targettree.hpp"],
  ["SILMB::predict", "SILMB::correct", "SILMB::cluster", "SILMB::birth", "SILMB::pos_phd", "SILMB::repr", "PositionSensor::get_targets", "Cluster_::correct"],
  "lockset analysis: each access to the shared structures in the inlined effect tree of an operation is located with the critical sections open around it",
  "accesses to the targets themselves are covered by the race property; construction and destruction of a tracker are excluded", over=("schedules",))
p("C03", "Lock discipline: no self-deadlock, no cyclic order, no exit by exception",
  "A thread inside a critical section never reaches a critical section of the same name again, directly or through calls, and sections of different names are never entered in opposite orders. "
  "No exception thrown by the library's own code leaves a critical section or a parallel region.",
  "all call paths",
  "A re-entered lock hangs only on the path that re-enters it, and an exception that leaves a region ends the process; tests avoid those paths.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/sensors.hpp", "include/gm.hpp", "include/pf.hpp", "include/omp.hpp"],
  ["CRITICAL", "PARFOR", "SILMB::predict", "Cluster_::correct", "SILMB::ospa"],
  "lock-order and exception-escape analysis over the call graph (calls, constructors, lambdas, function values)", "exceptions from the standard library and Eigen are not modelled", over=("inputs", "schedules"))
p("C04", "Queries and metrics leave the tracker unchanged",
  "Asking a tracker for its target count, expected number of targets, target list, position density, OSPA or GOSPA score or its printed form changes no target, density, identity, parameter or index entry of that tracker. "
  "Searching the spatial index changes nothing in the index.",
  "all tracker states, all arguments, any number of repeated queries",
  "A query that alters hidden state shows only in the operations after it; tests look at a query's own result.",
  ["include/lmb.hpp", "include/target.hpp", "include/targettree.hpp", "include/gm.hpp", "include/RTree.h"],
  ["SILMB::enof_targets", "SILMB::nof_targets", "SILMB::get_targets", "SILMB::pos_phd", "SILMB::ospa", "SILMB::gospa", "Target_::distance", "RTree::Search"],
  "effect analysis: every write and mutating call in the inlined effect tree of a query is classified by the object it reaches", "random generator state is not tracker state")
p("C05", "The spatial index holds every live target under its current box",
  "Whenever prediction, a cluster update or the creation of a target has finished, every target in the tracker's list is in the spatial index exactly once, under the box it "
  "then reports, and a target dropped from the list is out of the index and freed. Targets are taken out of the index under the box they were indexed with, before any of them is inserted again.",
  "all target lists, cluster sizes, sequences of operations and outcomes of the keep-or-drop decision",
  "A stale or doubled index entry shows only when a later search or removal meets it; tests check the outcome of short sequences.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/targettree.hpp", "include/target.hpp"],
  ["SILMB::predict", "Cluster_::correct", "TargetTree_::new_target", "TargetTree_::remove", "TargetTree_::replace", "TargetTree_::erase"],
  "typestate analysis of index membership over the inlined effect tree, with symbolic comparison of the boxes passed to the index", "the index implementation is assumed to store what it is given")
p("C06", "A target is kept exactly while it is probable enough and well enough located",
  "After prediction and after a cluster's measurement update, a target stays in the tracker exactly when its existence probability is at least the existence limit and the norm of its position covariance is at most the covariance limit, "
  "both judged on the state in which the operation leaves the target. Every other affected target is dropped and freed, and every affected target is judged once.",
  "all target states, limits and numbers of targets",
  "The decision is taken per target on run-time state; tests look at targets well clear of the limits.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp"], ["SILMB::predict", "Cluster_::correct", "Target_::viable"],
  VG, "all parameter pointers of one tracker are assumed to refer to the same parameter set")
p("C07", "Every target gets an identity no other target ever has",
  "Whenever a target is created, it is given the tracker's next unused identity, and the counter behind it moves on by one in the same critical section. "
  "No operation changes the identity of an existing target, and none moves the counter without creating a target.",
  "all sequences and interleavings of operations",
  "Reuse of an identity shows only in long histories of births and deaths; tests create a few targets.",
  ["include/targettree.hpp", "include/target.hpp", "include/lmb.hpp"], ["TargetTree_::new_target", "TargetTree_::id_counter", "Target_::id", "SILMB::birth"],
  "effect analysis: all writes to identities and their counter in the inlined effect trees, with their guards, loops and critical sections",
  "fewer than 2^32 targets over the life of a tracker", over=("histories", "schedules"))
p("C08", "Filtering happens in one local metric frame and positions return to geodetic",
  "During prediction and the cluster update every affected density component and every report of the cluster is converted from geodetic to a local metric frame once and back once, about one and the same geodetic origin (a mean of their positions), and all "
  "filtering of them happens in between. A position-density or OSPA/GOSPA query converts every density and point it uses into one single local frame.",
  "all densities, component counts, numbers of targets and reports",
  "A component converted twice, not at all or about another origin gives small position errors, which the tolerances of the tests cover.",
  ["include/cluster.hpp", "include/lmb.hpp", "include/models.hpp", "include/gm.hpp", "include/pf.hpp", "include/gaussian.hpp", "include/report.hpp"],
  ["Cluster_::correct", "SILMB::predict", "CV::operator()", "GM::transform_to_local", "GM::transform_to_global", "GaussianReport_::transform_to_local", "SILMB::ospa", "SILMB::pos_phd"],
  "frame typestate over the inlined effect tree: each conversion is located with its loops, origin and order relative to other changes", "correctness of the conversions themselves is separate (C09-C11)")
p("C09", "Two- and three-coordinate conversions agree",
  "Every conversion that works on a latitude/longitude or north/east pair returns, for every input, the same values as its "
  "three-coordinate counterpart applied at altitude zero (a north/east offset is first brought back to altitude zero). "
  "The in-place variants replace exactly the position pair and leave any further state components unchanged.",
  "all argument values, all vector types the conversions are instantiated with",
  "The tests compare a handful of points near one origin; agreement has to hold in every hemisphere, quadrant and branch of the formulas.",
  ["include/cf.hpp"], ["ll2ecef", "ecef2ne", "ll2ne", "ecef2ll", "ne2ecef", "ne2ll", "nerot", "ll2ne_i", "ne2ll_i"],
  VG, "closed forms over the reals; rounding not modelled")
p("C10", "Geodetic to ECEF and local-tangent conversions are exact and mutually inverse",
  "Converting geodetic coordinates to Earth-centred coordinates follows the WGS-84 definition for every latitude, longitude and altitude, and the "
  "local north/east/down frame is an orthonormal rotation of the offset from its origin. Going from Earth-centred to local coordinates and back, or "
  "the other way round, returns the starting point for every point and origin.",
  "all points and origins",
  "The tests use one origin and round trips of a few points, within which compensating or region-specific errors cancel.",
  ["include/cf.hpp"], ["lla2ecef", "ll2ecef", "nedrot", "nerot", "ecef2ned", "ned2ecef", "lla2ned", "ned2lla"],
  VG, "closed forms over the reals; rounding not modelled")
p("C11", "ECEF to geodetic conversion is the published closed-form inverse everywhere",
  "Converting Earth-centred coordinates to latitude, longitude (and altitude) follows Olson's closed-form WGS-84 inverse for every point: in the low- and "
  "the high-latitude branch, in both hemispheres and in all four longitude quadrants.",
  "all Earth-centred points away from the Earth's centre",
  "The tests stay at one mid-latitude northern location, so one branch and one sign combination are exercised.",
  ["include/cf.hpp"], ["ecef2lla", "ecef2ll"], VG, "numerical accuracy of the series itself is not decided, only that the code computes it")
p("C12", "A measurement update is the exact Kalman-Bayes update",
  "Updating a Gaussian component with a report gives the Kalman posterior mean and covariance, and multiplies its weight by the detection probability of the prior "
  "component, the Gaussian likelihood of the innovation under its innovation covariance, and the inverse clutter density. Updating a mixture or a particle density does so for every "
  "component or particle, renormalises the weights and returns their sum before renormalisation.",
  "all priors, reports, covariances and numbers of components",
  "The tests check single one-component updates; the algebra has to hold for every component, covariance and clutter value.",
  ["include/gaussian.hpp", "include/gm.hpp", "include/pf.hpp", "include/report.hpp", "include/sensors.hpp"],
  ["Gaussian_::correct", "GM::correct", "PF::correct", "GaussianReport_::likelihood", "PositionSensor::measurement"], VG,
  "over the reals, covariances assumed symmetric positive definite; detection probability is an uninterpreted function of sensor, component and origin")
p("C13", "Density moments and normalisation follow the mixture definitions",
  "The mean, covariance, position and velocity moments reported for a mixture or particle density are the weighted moments over all of its components. Normalising divides every weight by the total "
  "and records the total, leaving means and covariances alone; a vanishing total empties (mixture) or invalidates (particles) the density instead of dividing. A missed detection returns one minus the expected detection probability "
  "and leaves a mixture's components unchanged; particles are weighed by their probability of being missed.",
  "all component counts, weights, means and covariances",
  "Tests use one- or two-component densities with fixed numbers.",
  ["include/gm.hpp", "include/pf.hpp"], ["GM::mean", "GM::cov", "GM::pos", "GM::vel", "GM::poscov", "GM::velcov", "GM::normalize", "GM::missed", "PF::mean", "PF::cov", "PF::normalize"],
  VG, "over the reals")
p("C14", "Motion models propagate state, covariance and survival exactly",
  "Predicting a target with the constant-velocity model moves every component by the transition for the elapsed time divided by the tracker's time scale, adds the matching process noise, keeps the weights, and multiplies the existence "
  "probability by the survival probability raised to that scaled time. The noise-only model keeps every state, adds its noise, and multiplies the existence probability by its survival probability. "
  "A predicted target's density is normalised, and the total of its weights enters its existence probability.",
  "all states, covariances, elapsed times, survival probabilities and component counts",
  "Tests step with one time increment; errors in cross terms or in later components do not show.",
  ["include/models.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/pf.hpp"], ["CV::operator()", "NM::operator()", "Gaussian_::linear_update", "GM::linear_update", "PF::linear_update"],
  VG, "over the reals; process noise of particle targets is outside the statement (the particle update applies none)")

p("C19", "Existence and birth weights are normalised sums over the enumerated hypotheses",
  "In a cluster update every drawn hypothesis of positive weight adds that weight, once per target, to the alternative it assigns the target, until the hypothesis weight or count limit is reached; with the sums divided by the total weight, "
  "each target's existence probability becomes the sum over its alternatives (zero when below 1e-6) and its density the mixture of the alternatives by these weights. "
  "Each report's birth weight becomes one minus its share, and one when the cluster has no target or no hypothesis counts.",
  "all numbers of targets, reports and hypotheses, all assignments and costs",
  "Tests have one or two targets and reports; errors in a single alternative, in the limits or with no valid hypothesis do not show.",
  ["include/cluster.hpp", "include/target.hpp"], ["Cluster_::correct", "Target_::correct"], VG, "which hypotheses are enumerated, and in what order, is not part of it; over the reals")
p("C31", "Association costs are the negative log of each target's three alternatives",
  "For every target of a cluster the costs handed to the hypothesis enumeration are: for each report, minus the log of the existence probability times the likelihood of that report; for a miss, minus the log of the existence probability times the miss "
  "probability; for non-existence, minus the log of one minus the existence probability. Likelihoods and miss probabilities are taken on separate copies of the target's predicted density, and every alternative of another target is forbidden.",
  "all numbers of targets and reports, all densities and reports",
  "Tests have one or two targets; a cost in the wrong place or taken from the wrong copy shifts association only with more.",
  ["include/cluster.hpp", "include/target.hpp"], ["Cluster_::correct", "Target_::match", "Target_::false_target"], VG, "likelihoods themselves are a separate property (C12)")

p("C20", "A target is born for exactly the reports with enough unexplained weight",
  "After a correction a new target is created for a report exactly when the birth weights of the whole scan sum to at least the existence limit and the report's share of the sensor's birth intensity, in proportion to its weight, does too; each report is considered once. "
  "The new target's existence probability is that share, capped at the birth maximum; its density is one component at the report's position with zero velocity, the report's covariance and the sensor's velocity prior; "
  "it carries the report's cluster and the time of the correction.",
  "all scans, clusterings, birth weights and limits",
  "Tests create targets from one or two reports far from the limits.",
  ["include/lmb.hpp", "include/sensors.hpp", "include/targettree.hpp", "include/target.hpp", "include/gm.hpp"], ["SILMB::birth", "SILMB::correct", "PositionSensor::pdf_init1", "TargetTree_::new_target", "Target_::Target_"], VG,
  "over the reals; mixture densities (the particle density is not used by a tracker)")
p("C21", "Clusters partition the scan and the targets near it",
  "A correction connects two reports when an index query with each report's own box returned a common target, and splits the scan into the connected components of that relation: every report is in exactly one cluster. "
  "A report's cluster holds each target its reports' queries returned, once; each other affected target forms a cluster of its own without reports. "
  "Clusters are numbered 0, 1, 2, ... by position; every report and target of a cluster carries its number, and the recorded number of clusters and each cluster's recorded numbers of targets, reports and hypotheses are those of the latest correction.",
  "all scans and target sets, all overlap graphs",
  "Tests cluster at most a few targets and reports in one or two fixed constellations.",
  ["include/lmb.hpp", "include/connectedcomponents.hpp", "include/cluster.hpp"], ["SILMB::cluster", "ConnectedComponents::get_component", "ConnectedComponents::connect"],
  "value-graph evaluation with effect tree: index queries, graph insertions, cluster constructions and number stamps are matched with the loops that produce them; the component search is checked as a worklist traversal",
  "the overlap answer of the index itself is another property; transitive connection is decided by the traversal's step rules (each node once, all unvisited neighbours followed, nodes removed)")
p("C15", "Bounding boxes contain what they bound and overlap exactly when they meet",
  "The axis box of a Gaussian reaches the given number of standard deviations from its mean on each axis, its oriented box is the rectangle of the same number of deviations along the principal axes; a density's boxes are the least box around all its components and the oriented box of its moments, in geodetic coordinates. "
  "Boxes overlap exactly when they share a point (axis boxes as closed intervals, oriented boxes when no side separates them), and a point is inside exactly when it is between the sides. "
  "Conversions between frames map every corner.",
  "all means, covariances, deviations, component counts, box positions and orientations",
  "Tests place a handful of boxes; crossings without contained corners and boundary contacts are not sampled.",
  ["include/bbox.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/report.hpp"], ["AABBox::from_gaussian", "AABBox::intersects", "BBox::from_gaussian", "BBox::intersects", "BBox::within", "GM::update_local_bbox", "GM::transform_to_global"],
  VG, "over the reals; conversions themselves are other properties; oriented boxes as convex quadrilaterals; an axis box in geodetic coordinates is spanned by its two converted extreme corners, as the code defines it")
p("C16", "The spatial index returns every stored entry whose rectangle overlaps the query",
  "After any sequence of insertions, removals and clears, a search reports exactly the stored entries whose stored rectangle meets the query rectangle (closed intervals on both axes), each once per stored copy, and stops early only when the receiver asks it to; its return value counts the reports. "
  "Removing an entry with its rectangle takes out that entry and no other, whatever nodes are divided, merged or dropped on the way.",
  "all operation sequences, tree heights and node fillings, all rectangles",
  "The tree divides and merges nodes only beyond eight entries per node and along particular sequences; tests hold a handful of entries.",
  ["include/RTree.h"], ["RTree::Search", "RTree::Insert", "RTree::Remove", "RTree::SplitNode", "RTree::ChoosePartition", "RTree::NodeCover", "RTree::RemoveRect"],
  VG, "per operation an inductive obligation, evaluated for every number of branches a node can hold; finite rectangle volumes")

p("C17", "Target queries report exactly the targets they are asked about",
  "A query for a box or point hands back every target the index search reports for exactly that region, once and without stopping early; expected and thresholded counts and target summaries are the sum of existence probabilities, the number at or above the limit, and one summary of its own density, probability and identities per target, over those targets or over all of them. "
  "A sensor is given exactly those hits whose oriented box meets its field of view. "
  "The position density samples each hit's density around the region's centre and adds each sample's equal share of the target's existence probability to the grid cell it falls in, and nothing elsewhere.",
  "all target sets, regions, limits and grid sizes",
  "Tests query a few targets with boxes that clearly contain or clearly miss them.",
  ["include/lmb.hpp", "include/targettree.hpp", "include/sensors.hpp"], ["SILMB::enof_targets", "SILMB::nof_targets", "SILMB::get_targets", "SILMB::pos_phd", "TargetTree_::query", "PositionSensor::get_targets"], VG,
  "what the search itself reports and the overlap of boxes are other properties; over the reals")

p("C18", "Ranked associations split the remaining ones without loss or repetition",
  "Drawing an association takes the subproblem of least cost from the front, puts every solved subproblem back unless it has no assignment of finite cost, and splits the drawn one pair by pair: one subproblem excludes the pair and keeps all earlier ones, the next one binds it, so that together they hold every association but the drawn one, each once. "
  "Rows, columns and costs of every subproblem refer to the original matrix: a solution names original rows and columns, and its cost is the sum of the original entries. "
  "The solver reads the matrix row by row, in buffers of the matrix's size, for any number of rows.",
  "all cost matrices (any size, infinite and negative entries), all sequences of draws",
  "Tests rank a handful of small matrices; a wrong partition shows only after several draws of particular matrices.",
  ["include/murty.hpp", "include/rlapjv.h"], ["Murty::draw", "MurtyState::solve", "MurtyState", "allbut", "lap::lap"],
  "value-graph evaluation with effect tree; the block and element writes that build a subproblem's matrix, index lists and buffers are composed and compared entry by entry for every bound pair at sizes up to 4x5 (all orderings of the index arithmetic, which is piecewise linear with unit steps)",
  "the inner shortest-path algorithm of the solver, and with it the optimality of a single assignment and of the ranking, is not decided (quantifies over numeric optima); storage order, sizes and what is solved are")

p("C30", "The multi-target scores follow their definitions",
  "OSPA(c, p) is ((1/n) min over assignments of sum of min(c, d)^p, with c^p for every unpaired one)^(1/p), n being the larger count; GOSPA is (min over assignments of sum of min(c, d)^p, with c^p/2 for every unpaired one)^(1/p); without targets and true positions both are 0. "
  "d is the distance between the mean of a target's density and a true position, both converted to the local frame of one origin: the given one, or the mean of the positions of all targets and true positions. "
  "What is assigned is the matrix of exactly these costs, so that the assignment minimises the score itself.",
  "all target sets, true positions, cutoffs c and powers p",
  "Tests score one configuration with p = 2 in which every pairing is obvious.",
  ["include/lmb.hpp", "include/target.hpp"], ["SILMB::ospa", "SILMB::gospa", "Target_::distance"],
  "value-graph evaluation with effect tree; the cost matrix handed to the solver is composed from the recorded writes and compared entry by entry with the definition for all counts of targets and positions up to 3 (the writes depend on the counts only by range), the score as a formula",
  "that the solver's assignment is a cheapest one is not decided here; over the reals")

p("C22", "Combining densities keeps the heaviest parts, each unchanged",
  "Adding mixtures drops exactly the components below the component limit, keeps of the others the heaviest up to the maximum number, and renormalises. "
  "Joining the densities of a target's associations takes their parts in descending order of association weight times weight, each once and with its own mean and covariance (for a particle density, state), until none is left, the maximum is reached or the next is below the component limit relative to the sum so far, and renormalises. "
  "Sampling a mixture fills every column once, the whole part of weight times number for each component and the rest for the last, with samples of that component's mean and covariance; resampling particles takes the first whose cumulative weight reaches each of N equally spaced positions, and a particle density drawn from a mean and covariance is valid and has its box.",
  "all densities, association weights, limits and numbers of samples",
  "Tests join one or two components; order, cut-offs and rounding show only in larger mixtures.",
  ["include/gm.hpp", "include/pf.hpp", "include/gaussian.hpp", "include/statistics.hpp"], ["GM::prune", "GM::operator+=", "GM::join", "PF::join", "PF::resample", "GM::sample", "GM::sample_pos", "nrand"],
  "value-graph evaluation with effect tree; the join is decided as an invariant of its queue (initial entries, one generic step), limits and counts by deciding the extracted conditions at and around their boundaries",
  "over the reals; the sort, heap and partial-sum of the standard library are taken as specified")
p("C32", "Detection probability is the share of the density inside the field of view",
  "The probability that a sensor detects a component is its detection constant times the fraction of samples, drawn from the component's mean and covariance, that lie in the field of view, whose corners are converted one by one to the component's local frame; for a particle it is the constant inside and zero outside. "
  "A mixture's share in a region is the weighted sum of its components' shares. "
  "A report made for a sensor carries that sensor's clutter density, any other the one given.",
  "all components, fields of view, origins and sensor constants",
  "Tests place targets well inside the field of view of one sensor.",
  ["include/sensors.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/pf.hpp", "include/report.hpp", "include/bbox.hpp"], ["PositionSensor::pD", "Gaussian_::overlap", "GM::overlap", "Particle::overlap", "BBox::nebbox", "GaussianReport_::GaussianReport_"],
  VG, "the sampling error of the fraction is part of the definition; the random generator is taken as standard normal; membership in a box is another property")

p("C24", "Python objects expose their own state and survive pickling",
  "In Python every attribute, method and keyword reads, writes or passes the quantity of that name of its own object (m is a component's mean, r a target's existence probability), and a correction returns the scan the tracker has filled in. "
  "An unpickled box, target or report equals the pickled one in every attribute. "
  "A newly constructed object has a defined value in every attribute.",
  "all objects of all registered classes",
  "Tests touch a handful of attributes and pickle no asymmetric matrix or box.",
  ["lmb/lmb.cpp", "lmb/cf.cpp"], ["PYBIND11_MODULE(lmb)", "PYBIND11_MODULE(cf)"],
  "module definitions read as data (name, bound member, keyword order); state functions and constructors evaluated symbolically and composed",
  "conversions between Python and C++ values by pybind11 are taken as exact")

p("C25", "Printed forms are well-formed JSON naming each value once",
  "The printed form of a tracker, cluster, list of reports, report, target, target summary, density, component or oriented box is one well-formed JSON value, whatever the number of targets, reports and components and as long as all numbers are finite. "
  "Every value stands under its own name, and every target, report and component is shown once, in order.",
  "all objects and list lengths",
  "Tests never parse what is printed, and never print empty or nested lists.",
  ["include/lmb.hpp", "include/target.hpp", "include/gm.hpp", "include/pf.hpp", "include/gaussian.hpp", "include/report.hpp", "include/cluster.hpp", "include/bbox.hpp", "include/constants.hpp"],
  ["SILMB::repr", "Target_::repr", "TargetSummary_::repr", "GM::repr", "PF::repr", "Gaussian_::repr", "GaussianReport_::repr", "Cluster_::repr", "BBox::repr", "print"],
  "output as a text with holes, extracted with its conditions and loops by value-graph evaluation, laid out for list lengths 0..3 (nested) and parsed; holes compared with the keys they stand under",
  "list lengths beyond three repeat the loop body's text; finite numbers only")

p("C26", "Targets use their tracker's parameters; summaries stand alone",
  "A tracker keeps the parameters it was given, and its clusters, targets and densities always use that tracker's own parameters. "
  "A target summary refers to nothing outside itself: constructed, copied or assigned it has the mean, covariance, probability and identities of its source, and its existence probability is its own. "
  "Destroying a tracker frees every target it holds, once.",
  "all trackers, parameter values, targets and summaries",
  "Tests use one tracker at a time with parameters that outlive it, and never copy a summary whose source is gone.",
  ["include/lmb.hpp", "include/target.hpp", "include/targettree.hpp", "include/cluster.hpp"], ["SILMB::SILMB", "Target_::Target_", "TargetSummary_::TargetSummary_", "TargetTree_::~TargetTree_"],
  VG, "parameter pointers are followed to the object they point at")

NA = []


def na(id, title, statement, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=["inputs"], text=text, why=why, files=files, mech=mech, reason=reason))


na("C23", "Existence probabilities stay between zero and one in floating point",
   "After any sequence of predictions and corrections, every target's existence probability is a number between 0 and 1.",
   "all histories of predictions and corrections", "Tests run a few scans with well-behaved numbers.",
   ["include/cluster.hpp", "include/target.hpp"], ["Cluster_::correct", "Target_::correct", "Target_::predict"],
   "The formulas that make it so over the reals are decided (C14, C19, C31); what rounding, underflow and the weights of thousands of hypotheses do to them is a runtime quantity: "
   "the interval bounds a static argument can reach (a sum of n shares of a total rounded n times) exceed 1 by themselves, so it would either alarm on correct code or assume what it should show.")
na("C27", "Each drawn association is a cheapest one not drawn before",
   "The associations of a cost matrix are drawn in order of non-decreasing cost, each being the cheapest among all that were not drawn before.",
   "all cost matrices and sequences of draws", "Tests rank a handful of small matrices.",
   ["include/murty.hpp", "include/rlapjv.h"], ["Murty::draw", "lap"],
   "The partition into subproblems is decided (C18). What remains is that the solver returns the cheapest assignment of one matrix: the loop invariants of the shortest augmenting path method (dual feasibility and "
   "complementary slackness of row and column prices updated in place) relate runtime sums over paths of unbounded length, which no dataflow or term summary here establishes.")
na("C29", "Covariances stay symmetric and positive definite in floating point",
   "The covariance of every component remains symmetric and positive definite after any number of predictions and updates.",
   "all histories, all report covariances", "Tests run a few scans.",
   ["include/gaussian.hpp", "include/models.hpp", "include/report.hpp"], ["Gaussian_::correct", "CV::operator()"],
   "Over the reals it follows from the formulas decided in C12 and C14; whether it survives rounding depends on the condition numbers met at run time, for which there is no static bound.")
na("C33", "Coordinate conversions are accurate to a millimetre",
   "Converting geodetic coordinates to local or Earth-centred ones and back returns the original position to within a millimetre for every point.",
   "all points", "Tests convert a handful of points.",
   ["include/cf.hpp"], ["ecef2lla", "lla2ecef", "ned2lla"],
   "The formulas are decided over the reals (C09-C11). Their rounding error involves cancellation between Earth-radius sized terms and divisions that vanish towards the axis; a static bound over all points is orders of "
   "magnitude above the millimetre, and Olson's inverse is itself a truncated series whose error bound is empirical.")
na("C34", "A tracker keeps up with any number of hypotheses",
   "A correction ends within time and memory polynomial in the numbers of targets and reports.",
   "all scans and target sets", "Tests use small scans.",
   ["include/cluster.hpp", "include/murty.hpp"], ["Cluster_::correct", "Murty::draw"],
   "The number of draws depends on the weights (they end at a hypothesis limit, decided in C19, or a fraction of the total weight), and the solver's inner loops end only if the prices it updates in floating point make progress; "
   "neither is bounded by anything visible in the source.")
