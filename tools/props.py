"""Source of /verif/properties.jsonl and the property tables of MANIFEST.json.

Run ``python3 tools/props.py`` from /verif to regenerate both files.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DATA, CALC, SEL = "graphicle/data.py", "graphicle/calculate.py", "graphicle/select.py"
MAT, TRA, BASE = "graphicle/matrix.py", "graphicle/transform.py", "graphicle/base.py"

PROPS = []


def P(id, title, statement, over, text, why, files, mech, level="other",
      technique="", note="", na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech, level=level,
                      technique=technique, note=note, na=na, state=state))


P("C01", "Inputs are never modified by calls that are not documented to mutate",
  "Calling any public function, method, property or operator leaves the contents of everything the caller passed in, and of the object it is called on, exactly as they were: momenta, masks, mask groups at every nesting level, graphs, event objects, numpy arrays and lists. "
  "The only exceptions are item assignment and deletion, attribute assignment, in-place operators, numpy's out= and ufunc.at, and recursive_drop(inplace=True), which change only their declared target.",
  ["inputs", "histories"], "every public callable, every combination of optional arguments, every array layout (including arrays which the data structures wrap without copying)",
  "tests compare return values only; an accidental write through a shared buffer shows up in a different object, for particular argument combinations",
  [DATA, CALC, SEL, MAT, TRA],
  "arrays are wrapped without copying (converter of the data structures, numpy views); functions must copy before writing",
  technique="interprocedural alias and write-effect abstract interpretation over the public API")

P("C02", "Copies are complete and share no memory with the original",
  "copy() on every data structure gives a new object of the same class with equal contents in every component: array data, edge weights, nested mask groups and their keys, order and aggregation operator, and all particle and adjacency components. "
  "No array reachable from a copy, nor from the result of shift_rapidity, shift_eta, shift_phi, split_momentum or split_hardest, shares memory with the original.",
  ["inputs", "histories"], "every data structure, every set of populated components, every nesting of mask groups",
  "tests never write to a copy and look at the original; only flat structures with a few components are sampled",
  [DATA, TRA],
  "copy methods of the data structures, composite copy over the non-empty components",
  technique="alias analysis of copy results plus component-completeness of the reconstructed object")

P("C03", "Memoised kinematics never go stale",
  "Every kinematic property of a MomentumArray (pt, eta, rapidity, phi, theta, mass, mass_t) and every connectivity quantity of an AdjacencyList always describes the data currently held: after assigning to data, and after in-place numpy operations (in-place operators, out=, ufunc.at), the next read gives the value of the new contents. "
  "No library routine returns or leaves behind an object whose memoised quantities disagree with its data.",
  ["histories"], "every history of reads, data assignments and in-place operations",
  "needs a read, then a mutation, then a second read of the same quantity; tests only read freshly constructed objects",
  [DATA],
  "functools.cached_property on the data structures, data setters, __array_ufunc__",
  technique="typestate of memoised fields against versioned buffers")

P("C04", "Selections keep every record of a particle together",
  "Indexing a ParticleSet or Graphicle with any key applies that same key to every populated component, including edges and edge weights, and drops none of them, so row i of every component still describes the same particle. "
  "Routines which pair names, masks and momenta keep the pairing: hard_descendants gives each parton's name the descendants of that same parton together with that parton itself, fastjet_clusters gives each jet the constituents of that same jet with the cuts evaluated on it and with jets in descending pT, truncated to top_k only after all cuts, and monte_carlo_tag gives each parton's name the cluster assigned to that parton.",
  ["inputs", "configurations"], "every event content, mask, target list, cut and combination of optional filters",
  "a misalignment needs an event in which two orderings differ (several jets out of order, a target filter, a mask that is not a prefix); tests have no such events",
  [DATA, SEL],
  "composite getitem, index and mask bookkeeping in the selection routines",
  technique="index-space typing over the extracted dataflow")

P("C05", "Invalid arguments are always rejected with the documented error",
  "Arguments documented as invalid always raise the documented exception, whatever the other arguments are, and are never silently accepted: fastjet_clusters with negative radius, pt_cut or eta_cut or with top_k below one or not an integer; from_spherical_uniform with massless outside [0, 1]; split_hardest with z outside (0, 0.5] or no axis and fewer than two particles; split_momentum with several particles; cut_adj with unknown mode or non-boolean weighted; knn_adj with a non-floating dtype when weighted; find_vertex without pdgs; combined_mass with non-array weights; centroid_prune without a MomentumArray; monte_carlo_tag with no clusters, neither hard stage, both lists, or mismatched lengths; PdgArray.from_name with non-strings. "
  "Mask operators reject operands that are not masks, comparisons reject masks of different shape, a MaskGroup with aggregation none refuses to aggregate, and array classes reject data with the wrong number of columns. "
  "Valid boundary values (radius 0, top_k 1, massless 0 and 1, z 0.5) are accepted.",
  ["inputs", "configurations"], "every value in the documented invalid region, crossed with every combination of the other arguments",
  "rejection must hold for every value of an unbounded region and every combination of the other arguments; tests exercise none of them",
  [DATA, CALC, SEL, MAT, TRA],
  "guard clauses at the entry of the public functions",
  technique="interval/type abstract interpretation of guard clauses (all exits raise / no exit raises)")

P("C06", "The requested thread count applies to the kernel and is always restored",
  "Every routine with a thread-count parameter runs its parallel computation with exactly the requested number of numba threads. "
  "On every exit, normal or exceptional, the number of numba threads in effect is the one from before the call.",
  ["inputs", "schedules", "fault_sequences"], "every thread count, every exit path including exceptions thrown by the computation, nested and repeated calls",
  "needs an exception raised inside the computation, or observing process-global numba state after a call; tests never look",
  [CALC, DATA, SEL, MAT],
  "context manager which sets and restores numba's thread count; call sites of parallel kernels",
  technique="typestate / must-release dataflow on all exits and call-graph dominance")

P("C07", "Parallel kernels are free of data races",
  "The result of every numba parallel kernel (inter-particle distances, clustering coefficients, assignment costs) is the same, up to the rounding of sums, for every number of threads and every interleaving: distinct parallel iterations never write the same array element, never read an element another iteration writes, and share no scalar accumulator.",
  ["schedules", "inputs"], "every interleaving of the parallel iterations, every input size and thread count",
  "races depend on interleaving and chunking; the tests use one thread and tiny inputs",
  [CALC],
  "nb.prange loops in numba parallel kernels",
  technique="affine subscript dependence analysis of prange loops")

P("C08", "Results depend only on the arguments and the seed",
  "Calling a public routine twice with equal arguments (and, where there is randomness, the same seed) gives equal results, also in different processes: random numbers come only from generators seeded by the caller's seed argument, and no result depends on global random state, the time, object identity or the hash-randomised order of a set. "
  "The documented exceptions are routines stated to return values in no particular order.",
  ["configurations", "histories", "inputs"], "every hash seed, every previous history of the process, every seed argument",
  "a single test process has one hash seed and one history; order dependence only shows between processes",
  [DATA, CALC, SEL, MAT, TRA],
  "random generator construction, set construction and iteration",
  technique="taint analysis of nondeterminism sources (RNG, set order, time, id/hash)")

P("C09", "Mask operators follow boolean algebra",
  "On masks, mask groups and numpy boolean arrays the operators &, |, ~, == and != and the methods bitwise_and and bitwise_or give exactly the element-wise logical result over all their members, every element at its own position. "
  "A MaskGroup used as a single mask is the conjunction of all its members for aggregation 'and' and the disjunction of all of them for 'or', at every nesting level with each level using its own setting. "
  "The agg_op attribute is the setting given at construction or assigned last, as text in any capitalisation or as a MaskAggOp; with 'none', use as a single mask raises ValueError.",
  ["inputs"], "every combination of operand kinds (mask, group, numpy array), group size, nesting and aggregation setting",
  "the tests only build one group and serialise it",
  [DATA],
  "operator methods and aggregation property of the mask classes",
  technique="value-graph extraction with boolean canonicalisation (truth tables) against the declared algebra")

P("C10", "Structured input is read by field name into one canonical layout",
  "Structured momentum, edge and colour input is read by field name, never by position: x/px, y/py, z/pz, e/pe/E for momenta, src/in and dst/out for edges, color and anticolor for colours, for every order of the fields. "
  "However it is supplied, data is held as a row-contiguous array with the declared dtype and number of columns, columns in the order (x, y, z, e), (src, dst) and (color, anticolor), and the structured view and named properties read back the matching columns.",
  ["inputs"], "every permutation of field names, every alias spelling, contiguous and non-contiguous input, lists and arrays",
  "4! x aliases orders of fields; tests only pass the canonical order",
  [DATA],
  "field converter of the wrapped arrays, name maps, structured views",
  technique="constant evaluation of the name maps over all permutations and column-flow analysis of the converter")

P("C11", "Serialisation is complete and made of native Python values",
  "serialize() includes every component and key, at every nesting level and in storage order, and gives tuples of native Python numbers, booleans or named tuples of them, never numpy scalars or arrays. "
  "Rebuilding the object from its serialised form gives the same data.",
  ["inputs"], "every data structure, component subset and nesting of mask groups",
  "only mask groups are round-tripped by the tests",
  [DATA],
  "serialize methods and native iteration of the data structures",
  technique="value-graph extraction: key completeness and native-type inference")

P("C12", "Kinematic quantities equal their definitions",
  "For every momentum: pt = sqrt(px^2+py^2); theta and phi are the polar and azimuthal angles of the three-momentum; eta = artanh(pz/|p|); rapidity = 1/2 ln((E+pz)/(E-pz)) with infinity of the sign of pz when E = |pz|; mass and mass_t are the signed roots of E^2-|p|^2 and E^2-pz^2, negative when the square is; phi is NaN exactly where pt is numerically zero. "
  "combined_mass, resultant_coords, weighted_centroid and aggregate_momenta equal the corresponding expression of the (weighted) sums of the given momenta, and jaccard_distance equals the weighted size of the symmetric difference over that of the union, or 0 for an empty union.",
  ["inputs"], "every sign, scale and degenerate configuration of the momenta (along the beam, at rest, space-like), every number of particles, both settings of pseudo",
  "tests compare a few random positive-energy momenta; sign conventions, optional weights and degenerate branches are not sampled",
  [DATA, CALC],
  "kinematic properties and the numeric kernels behind them",
  technique="value-graph extraction and global value numbering by random interpretation against declared formulas")

P("C13", "Boosts and rotations shift one coordinate and preserve the invariants",
  "shift_rapidity adds the shift to the rapidity of every particle and keeps px, py, mass_t and mass; shift_phi adds the angle to the azimuth and keeps pt, pz and energy; experimental shift_eta adds the shift to the pseudorapidity and keeps px and py, with undefined energy, and otherwise boosts all particles together along z until the pseudorapidity of their summed momentum has moved by the shift. "
  "rotation_matrix is orthogonal with determinant one, rotates by the given angle in the right-handed sense about the given axis, and leaves the axis fixed; conversions between angles and axis are mutually inverse.",
  ["inputs"], "every momentum, shift (scalar or per particle, positive or negative), angle and axis",
  "the invertibility tests also pass for a transformation which scales or reflects consistently both ways",
  [DATA, TRA, CALC],
  "shift methods, rotation matrix, angle/axis conversion",
  technique="value-graph extraction and algebraic identity checking of the extracted transformation")

P("C14", "Splitting a particle conserves four-momentum and keeps the others",
  "split_momentum gives two rows summing to the parent's four-momentum, the first having z times the parent's energy and its three-momentum scaled by z and rotated by the angle about the axis. "
  "split_hardest replaces exactly the particle of highest pT by its two children placed last, first child before second, and keeps every other particle unchanged and in order.",
  ["inputs"], "every event size, position of the hardest particle, z, angle and axis",
  "the test looks at the summed four-momentum of one sample; row placement and the position of the hardest particle are not varied",
  [TRA],
  "split_momentum and split_hardest",
  technique="value-graph extraction, algebraic identities and slice-coverage analysis of the output rows")

P("C15", "Event-shape objectives match their definitions and their gradients",
  "The objective minimised for thrust is minus the sum of |n.p| over the sum of |p|, and that for spherocity is (4/(pi sum|p|) sum|p x n|)^2, for the axis n of the given angles, and the gradient given to the optimiser is the exact derivative of that objective with respect to azimuth and inclination, in that order. "
  "thrust and spherocity return the optimum with the sign of the definition, and the axis for the optimal angles; c_parameter equals 3/2 sum_ij (|p_i||p_j| - (p_i.p_j)^2/(|p_i||p_j|)) / (sum|p|)^2 over all ordered pairs, particles without momentum contributing nothing.",
  ["inputs"], "every event and every trial axis",
  "tests use two highly symmetric events in which gradient and normalisation errors cancel or are not seen",
  [CALC],
  "objective kernels with analytic gradients and their wrappers",
  technique="loop-summary extraction, symbolic differentiation and value numbering")

P("C16", "Particle data come from the matching column, with masses and widths in GeV",
  "Each PdgArray property (name, latex, charge, mass, quarks, width, isospin, g_parity, space_parity, charge_parity) reads its own column of the particle table for exactly the stored codes, in order; mass_bounds and width_bounds read the matching lower and upper columns. "
  "Masses and widths and all of their bounds are converted from MeV to GeV exactly once, all other quantities are not scaled; mask() selects or removes exactly the targets, with both signs unless sign_sensitive.",
  ["inputs"], "every code in the table, all properties, all flag combinations of mask",
  "tests look at quark content only",
  [DATA],
  "property accessors over the particle lookup table",
  technique="value-graph extraction with unit (MeV/GeV) tracking")

P("C17", "FastJet stays optional",
  "Importing graphicle and calling anything other than fastjet_clusters never imports or needs the fastjet package.",
  ["configurations", "programs"], "every import path and every public entry point",
  "the test environment is a single installation; an eager import only fails where fastjet is missing or broken",
  [SEL, "graphicle/__init__.py"],
  "lazy import inside the clustering routine",
  technique="import-effect reachability over module initialisers and the call graph")

P("C18", "Every name, attribute and keyword the library uses exists",
  "No execution of library code fails because it refers to something that does not exist: every global name, module attribute, instance attribute, method and field of graphicle's own classes, keyword argument of graphicle's own callables, and numpy/scipy/stdlib function used by the code exists in the installed versions. "
  "Every local variable is bound before it is used on every path that reaches the use.",
  ["inputs", "configurations"], "every statement of the package, on every path, also in rarely taken branches",
  "Python only notices a missing name when the line runs; most branches of the package are not run by the tests",
  [DATA, CALC, SEL, MAT, TRA, BASE],
  "all modules",
  technique="name, attribute and definite-assignment resolution against the package and installed library stubs")

P("C19", "All data structures share one sequence protocol",
  "Every array structure has len equal to its number of particles, is falsy exactly when it has none, iterates native Python values in order, and indexing by slice, integer, index array, boolean array, MaskArray or MaskGroup returns the same class holding exactly the selected rows in order. "
  "A composite is truthy if any of its components is, its length is that of a populated component, and a MaskGroup, which is truthy exactly when it has members and they are not of length zero, indexed by a list of keys, or by a mask or slice, gives a group of the same aggregation with those members, or with every member so indexed.",
  ["inputs"], "every class crossed with every kind of key",
  "sibling classes implement the protocol separately; tests index one or two of them",
  [DATA],
  "protocol methods of the data structures",
  technique="sibling cross-check of extracted value graphs of the protocol methods")

P("C20", "Numpy ufuncs work on the data and keep the declared result class",
  "Applying a numpy ufunc to a data structure computes it on exactly the wrapped data of all operands: the result is of the same class for element-wise operations and for reductions over particles (axis 0), a plain array or scalar for reductions over components or everything, and a MaskArray when the result is a boolean array. "
  "out= and ufunc.at modify the wrapped data in place, several outputs give a tuple, and operands of unsupported type are refused with NotImplemented.",
  ["inputs", "programs"], "every ufunc, method, operand mix and axis",
  "the space of ufunc x method x operands is combinatorial; tests use np.sum and arithmetic on momenta",
  [DATA],
  "__array_ufunc__ implementation shared by the data structures",
  technique="abstract interpretation of the ufunc override per dispatch case")

P("C21", "Numeric kernels never divide by a value that can be zero",
  "No compiled numeric kernel raises ZeroDivisionError on events containing particles at rest, collinear with an axis or beam, identical particles, or candidates without spread: every division by a quantity that can vanish for an individual particle or pair is guarded. "
  "Only quantities of the whole event (total momentum, as in the normalisation of an event with no momentum at all) may be divided by without guard.",
  ["inputs"], "every event content, including zero momenta, collinear and duplicated particles",
  "degenerate inputs occur rarely; numba's default error model turns them into exceptions only in the compiled kernels",
  [CALC],
  "numba kernels",
  technique="non-zero dataflow analysis of divisors with guard refinement")

P("C22", "Both Delta R computations agree and are oriented rows-by-columns",
  "delta_R(a, b)[i, j] is sqrt((y_i-y_j)^2 + dphi_ij^2) with i from a and j from b, dphi wrapped to [-pi, pi], and rapidity difference taken as 0 where it is undefined (both infinite), with eta or rapidity as chosen by pseudo. "
  "The self-distance implementation gives exactly the matrix the general one would give: symmetric, zero diagonal and every entry assigned; parton_hadron_distance scales row i by pt_i to the given power, and centroid_prune keeps exactly the particles closer than radius in the same metric.",
  ["inputs", "configurations"], "every pair of point clouds, pseudo flag and thread count, same or different object",
  "the tests never call delta_R; the two kernels can drift apart silently",
  [CALC, DATA, MAT, SEL],
  "distance kernels and their callers",
  technique="loop-summary extraction and value numbering; coverage of the index square")

P("C23", "Descendant masks contain exactly the graph descendants",
  "vertex_descendants selects exactly the edges whose source is the vertex or can be reached from it along the directed edges of the graph, whatever the order, signs or repetitions of the edges; for a vertex without outgoing edges it selects the edges which end there. "
  "edge_descendants selects the edge itself together with exactly the descendants of its target vertex.",
  ["inputs"], "every directed graph, vertex and edge",
  "reachability depends on the whole graph (relabelling, direction, cycles, repeated edges); no test builds a graph",
  [SEL, DATA],
  "sparse relabelled graph and breadth first search",
  technique="value-graph extraction down to the sparse matrix, compared with reachability")

P("C24", "Assignments are exclusive and of least total cost",
  "arg_closest gives, for each focus element in order, the index of one candidate, never the same candidate twice, such that no other such choice has a smaller total cost; monte_carlo_tag uses this assignment between the selected partons and the summed momenta of the clusters. "
  "The cost of a pair is [1 - exp(-dR^2 / 2 var_R)] + [1 - exp(-dpt^2 / 2 var_pt)] with dR the rapidity-azimuth distance, var_R the variance of that focus element's distances to all candidates, dpt the difference of the transverse momenta and var_pt the variance of the candidates' transverse momenta; a term is left out where its variance is zero.",
  ["inputs", "configurations"], "every pair of momentum sets with at least as many candidates as focus elements, every thread count",
  "greedy, row-wise or mis-normalised choices agree with the optimum for well separated objects, which is all that tests contain",
  [CALC, SEL],
  "cost matrix kernel and assignment of arg_closest",
  technique="loop-summary extraction of the cost matrix and value comparison of the assignment it induces")

P("C25", "Vertices, roots and leaves of a graph are read off its edges exactly",
  "The roots of an AdjacencyList are exactly the edges whose source is the destination of no edge, its leaves exactly the edges whose destination is the source of no edge, and nodes holds every vertex exactly once in ascending order of magnitude; the same holds for the graph of an event and for any selected part of the edges. "
  "hadron_vertices gives, once each and as native integers, exactly the source vertices of the particles with status magnitude 80 to 90.",
  ["inputs"], "every edge list: any labels of either sign, any order, repeated, reversed, looping or disconnected edges, with or without weights",
  "no test builds a graph; vertex relabelling and sparse sums go wrong only for particular labels and repetitions",
  [DATA, SEL],
  "connectivity properties of AdjacencyList over its sparse form; hadron_vertices",
  technique="value-graph extraction down to the sparse sums, compared with the definition on the edges")

P("C26", "Equality compares contents",
  "Comparing two ParticleSets or two Graphicles with == compares the contents of all components, including edge weights, and gives False when any component differs. "
  "MaskGroup.equal_to is true exactly when keys (as sets, or in order with check_order), nesting and every leaf array agree, at every level.",
  ["inputs"], "every pair of objects differing in exactly one component, key, level or order",
  "tests compare a few copies; each single differing component would need its own case",
  [DATA],
  "attrs equality of composites, recursive comparison of mask groups",
  technique="component-completeness analysis of the comparison value graph")

P("C27", "Mask-tree operations reach every level and treat 'latent' consistently",
  "recursive_drop removes the key at every nesting level, flatten('rise') and ('leaves') reach every nested mask, and the latent entry is never reported as a leaf or raised, whatever its position; flatten('agg') keeps each top-level member as one mask. "
  "leaf_masks keeps the aggregation setting and any_overlap is true exactly if some pair of members shares a True element.",
  ["inputs"], "every depth, order and number of nested groups",
  "tests build a single nesting",
  [DATA, SEL],
  "recursive methods over mask groups",
  technique="abstract interpretation over materialised tree shapes")

P("C28", "Status code tables agree across the package",
  "The hard process masks are exactly the particles with status magnitude 21 (incoming), 22 (intermediate), 23 (outgoing) and 24 (diffraction), combined by 'or'; from_lhe_event maps Les Houches codes -1, 1, 2, 3, -2, -9 onto codes whose hard-process category is incoming, outgoing, intermediate, intermediate, intermediate and none respectively, each particle mapped exactly once. "
  "in_range is inclusive on both ends, unbounded above without maximum, on magnitudes unless sign_sensitive; every hard-process key used elsewhere in the package exists in the table.",
  ["inputs"], "every status code and every combination of bounds and flags",
  "no test uses status codes",
  [DATA, SEL],
  "status code tables",
  technique="constant propagation over the code tables and cross-checking of key uses")

P("C29", "Adjacency constructions follow their documented edge semantics",
  "cut_adj has an edge i->j exactly where the affinity is below (max) or above (min) the cut, weighted by the affinity or boolean; knn_adj joins each node to its k nearest others, outward by rows or columns as asked; fc_adj joins all pairs; self-loops are absent unless requested. "
  "An AdjacencyList's matrix, sparse form and matrix constructor agree on direction (row = source, column = destination) and pair each edge with its own weight; cluster_coeff_distbn uses distances below radius without self edges.",
  ["inputs", "configurations"], "every matrix, cut, k and combination of flags",
  "no test calls these functions",
  [MAT, DATA, CALC],
  "adjacency constructors and conversions",
  technique="value-graph extraction per flag combination against declared element-wise definition")

P("C30", "Randomly sampled momenta are physical, uniform and isotropic",
  "MomentumArray.from_spherical_uniform gives exactly size momenta whose energies are uniform between zero and max_energy and whose directions are uniform over the sphere (polar cosine and azimuth uniform), all of them independent of each other and between particles. "
  "No momentum exceeds its energy, and each particle is massless with probability massless: none when it is 0, all when it is 1.",
  ["inputs"], "every size, energy bound, massless fraction and outcome of the random draws",
  "a wrong density cannot be seen in a handful of samples; tests use such momenta only as input",
  [DATA],
  "sampling of energies, masses and angles in from_spherical_uniform",
  technique="value-graph extraction over the individual random draws, with a per-draw response analysis")

P("C31", "Events keep every field they are built from in its own component",
  "ParticleSet.from_numpy, Graphicle.from_numpy, Graphicle.from_event and ParticleSet.from_lhe_event put each array they are given into its own component (pdg, pmu, color, helicity, status, final, edges and weights), whatever its values, and leave the components of missing fields empty; from_event takes final from event.masks['final'] exactly when the event has no final attribute, and from_lhe_event marks no particle as final. "
  "The accessors of a Graphicle (pdg, pmu, color, helicity, status, final, edges, nodes) give the component of that name, and MaskGroup.from_numpy_structured makes every boolean field a member of that name, in order.",
  ["inputs", "configurations"], "every set of fields, every content including all zero or all False",
  "tests build complete structures from one kind of source",
  [DATA],
  "alternative constructors and accessors of the composites",
  technique="abstract interpretation over every set of populated fields, components compared on the heap")

P("C32", "Hadronised descendants are shared out among their partons by distance",
  "partition_descendants gives a tree of the same shape in which, for every vertex sourcing an edge of status 80 to 90 with an incoming particle in the hierarchy, each final descendant of that vertex belongs to exactly those leaves which contain the incoming particle nearest to it, among the leaves having any particle entering the vertex. "
  "Distance is parton pt to the power pt_exp (-0.1 by default) times the pseudorapidity Delta R; latent masks, all other particles and leaves not entering the vertex stay as they were.",
  ["inputs", "configurations"], "every event graph, hierarchy (flat or nested), momenta and exponent",
  "no test calls partition_descendants",
  [SEL, MAT],
  "partition of the hierarchy among hadrons",
  technique="value-graph extraction with carried state of the nested loops, compared with the declared allocation in finite events")

P("C33", "Array structures compare element by element",
  "== between a PdgArray, HelicityArray, StatusArray, MomentumArray, ColorArray or AdjacencyList and another of its class, the numpy data of one, a single number (for PdgArray, HelicityArray and StatusArray) or a single record (a tuple, list or element, for the others) gives a MaskArray with one entry per element, in order, which is True exactly where the whole record is equal in every component, by value and sign; a record with an undefined (NaN) component equals nothing. "
  "!= gives exactly the opposite mask; an AdjacencyList is compared edge by edge, without its weights.",
  ["inputs"], "every array structure, every content including repeated, partly equal, negative and NaN records, every form of the other operand",
  "tests compare for full equality with samples that are equal or wholly different; partly equal records and single rows are not sampled",
  [DATA],
  "comparison operators shared by the array structures",
  technique="value-graph extraction of the operators, compared with record equality in finite models of few distinct values")

P("C34", "Assignment changes exactly what it names",
  "mask[key] = value sets the selected entries of a MaskArray to value, for keys which are an integer, slice, list, integer or boolean array or MaskArray, and leaves every other entry alone; group[key] = value makes value (an array becoming a MaskArray) the member of that key, in its place if the key exists and last otherwise, and deletion, pop and clear remove only the members they name. "
  "Nothing else changes: not the other members, their order or nesting, nor the aggregation operator. Assigning to the data attribute of an array structure makes the structure hold the assigned contents.",
  ["inputs", "histories"], "every kind of key and value, every existing, new or nested member",
  "tests never assign to a mask, nor replace or delete a member of a group with several",
  [DATA],
  "item assignment and deletion of MaskArray and MaskGroup, data setters",
  technique="abstract interpretation of the assignment, the object afterwards compared with numpy's and an ordered dictionary's assignment in finite models")

NA = [
    ("N02", "Clusters from clusters() are disjoint and exclude background",
     "clusters() assigns each final particle to at most one colour-connected parton and drops particles beyond the radius.",
     ["inputs"], "every event graph", "needs full generator events", [SEL], "hierarchy, partition and prune steps",
     "Disjointness depends on run-time distances, graph topology and colour flow (and is not even guaranteed for arbitrary graphs); nothing in the shape of the code settles it."),
    ("N04", "thrust and spherocity reach the global optimum",
     "The returned value is the global optimum over all axes.",
     ["inputs"], "every event", "non-convex optimisation over run-time data", [CALC], "scipy.optimize.minimize from a random start",
     "A local optimiser from a random start on a non-convex run-time objective: global optimality is not decidable from the source (and is not guaranteed)."),
    ("N05", "shift_eta meets its tolerance or warns",
     "The iterative pseudorapidity boost ends within abs_tol of the target or warns.",
     ["inputs"], "every momentum set and shift", "convergence of a fixed-point iteration", [DATA], "iterative boosts",
     "Whether the last bits of an iteration over run-time floating point values fall below 1e-14 needs a rounding analysis; that the iteration lands on the shifted pseudorapidity at all is decided in C13."),
    ("N06", "find_vertex returns exactly the matching vertices",
     "find_vertex returns exactly the vertices whose incoming and outgoing pdgs contain the requested sets.",
     ["inputs"], "every event graph", "pandas pivots over run-time data", [SEL], "pandas pivot tables",
     "The result is produced by pandas pivot/explode/query string semantics over run-time values; the source shape does not determine it. Its argument rejection is decided under C05."),
    ("N07", "Floating point accuracy of kinematics",
     "Kinematic quantities are accurate to a few ulp for all scales.",
     ["inputs"], "every magnitude", "rounding error accumulates over run-time values", [DATA, CALC], "complex and difference-of-squares formulations",
     "Rounding error bounds need a floating-point error analysis over run-time magnitudes; C12 decides the real-number formula only."),
]


NOTE = ("Decided from the source text alone on every run; trusts the models of numpy/numba "
        "semantics written in sa/ and assumes calls respect the documented argument kinds. ")
PENDING = "The rule for this property is still being built; nothing is claimed for it yet."


def claimed(p):
    return os.path.exists(os.path.join(HERE, "sa", "rules", p["id"].lower() + ".py"))


def record(id, title, statement, over, text, why, files, mech):
    names = [mech] if isinstance(mech, str) else mech
    assert len(title) <= 80, id
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=", ".join(files)) for n in names]))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(record(p["id"], p["title"], p["statement"], p["over"], p["text"],
                                      p["why"], p["files"], p["mech"])) + "\n")
        for (i, t, s, o, x, w, fs, m, r) in NA:
            f.write(json.dumps(record(i, t, s, o, x, w, fs, m)) + "\n")
    man = dict(version=1,
               setup_cmd="python3 tools/selftest.py", checks=[], not_applicable=[])
    for p in PROPS:
        if claimed(p):
            man["checks"].append(dict(
                property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                technique="static analysis: " + p["technique"], level=p["level"],
                level_note=NOTE + p["note"]))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or PENDING))
    for n in NA:
        man["not_applicable"].append(dict(property=n[0], reason=n[8]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
