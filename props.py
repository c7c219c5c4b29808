# the properties: source of properties.jsonl (gen.py writes it)
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where='src/' + w) for n, w in mech], observe_at=list(observe), hook_needed=None), na=na))
S = 'Omega_h_'
p('C01', 'Sorting by keys returns the stable ascending permutation',
  'Sorting items by tuples of integer keys returns a permutation of the item indices along which the tuples never decrease lexicographically, and items with equal tuples keep their original relative order. The same holds for long inputs and for 32 and 64 bit keys of any value, including the extremes. Ranking a small-range integer array groups equal values consecutively, in first-seen order of the values, and reports the boundaries of the groups.',
  ['inputs'], 'every array of keys up to the size bound, every key value, every tuple width supported', 'tests sort two or three fixed arrays; adjacency, ownership and file output rely on stability for all key values',
  [S+'sort.cpp', S+'sort.hpp'], [('stable merge sort with a lexicographic comparator', S+'sort.cpp')], ['sort_by_keys', 'sort_small_range'])
p('C02', 'Maps between index sets invert, compose and move data exactly',
  'Inverting a map lists, for every target, exactly the sources that map to it, in ascending order; offsets from counts are running sums; marked subsets and their numbering agree. Moving data through a map (gather, scatter, scatter-add, range copies, expansion along a fan, per-group reductions) puts every component exactly where the map says and leaves everything else untouched. Permutations compose and invert to the identity.',
  ['inputs'], 'every map, mark array and data array up to the size bound, for 8, 32, 64 bit integers and reals, one or more components', 'tests use a few hand-written maps; every mesh algorithm relies on these for arbitrary maps, including empty ones and those with unused targets',
  [S+'map.cpp', S+'scan.hpp', S+'int_scan.cpp', S+'graph.cpp'], [('map inversion by counting or by sorting', S+'map.cpp'), ('offset scan', S+'int_scan.cpp')], ['invert_map_by_sorting', 'offset_scan', 'map_onto', 'unmap', 'fan_reduce'])
p('C03', 'Array operations compute their elementwise and reduced definitions',
  'Elementwise operations and comparisons between arrays, component extraction and insertion, concatenation and interleaving of arrays, and searches and reductions (sum, minimum, maximum, equality, sortedness, last occurrence) return exactly what their definitions say for every input length including zero. Sums of 8 and 32 bit values are accumulated without overflow in the promoted type that is documented for them.',
  ['inputs'], 'every pair of arrays up to the size bound with any values', 'tests check a handful of constant arrays; empty arrays, extreme values and multi-component arrays are not sampled',
  [S+'array_ops.cpp', S+'array_ops.hpp', S+'array.cpp', S+'functors.hpp'], [('transform_reduce and parallel_for kernels', S+'array_ops.cpp')], ['get_sum', 'get_min', 'get_max', 'each_*', 'coalesce', 'interleave'])
p('C04', 'Reproducible sums do not depend on order or distribution',
  'The reproducible floating-point sum of a set of finite values is bit-for-bit the same for every ordering of the values and for every way of distributing them over ranks. It differs from the exact sum by no more than the stated fixed-point resolution relative to the largest value. The 128 bit integers it is built on add, subtract, compare, shift and convert exactly.',
  ['inputs', 'schedules', 'configurations'], 'every multiset of values within the bound, every permutation and every split over ranks', 'a test sums one array in two orders; the claim is over all values, permutations and partitions',
  [S+'array_ops.cpp', S+'int128.hpp', S+'comm.cpp'], [('fixed-point 128 bit accumulation at a common exponent', S+'array_ops.cpp'), ('128 bit arithmetic', S+'int128.hpp')], ['repro_sum'])
p('C05', 'Shared arrays never leak, double-free or dangle',
  'Under every sequence of creating, copying, moving, assigning (also to itself) and dropping array handles, each buffer lives exactly as long as some handle refers to it, is freed exactly once, and keeps its contents. Memory accounting returns to zero when the last handle goes away.',
  ['histories'], 'every sequence of handle operations up to the length bound', 'tests exercise a few straight-line lifetimes; the guarantee is over histories',
  [S+'shared_alloc.cpp', S+'shared_alloc.hpp', S+'array.cpp'], [('reference count kept in the allocation', S+'shared_alloc.cpp'), ('registry of live allocations', S+'shared_alloc.cpp')], ['Write', 'Read', 'SharedAlloc'])
p('C06', 'The memory pool never hands out overlapping or lost blocks',
  'Blocks handed out by the memory pool are at least as large as requested, writable over their whole size and disjoint from all other live blocks, for every sequence of allocations and releases. A released block can be reused, and destroying the pool returns all memory to the system once.',
  ['histories'], 'every sequence of allocations and releases up to the length bound, over a family of sizes', 'no test drives the pool through reuse histories',
  [S+'pool.cpp', S+'pool.hpp', S+'malloc.cpp'], [('size-class free lists', S+'pool.cpp')], ['Pool', 'allocate', 'deallocate'])
p('C07', 'Linear partitioning assigns every global number exactly one owner',
  'Splitting a range of global numbers over ranks gives consecutive, disjoint, covering, balanced pieces (sizes differing by at most one), and the rank and local index computed for any global number, and for any copies of it, name the unique slot that holds it.',
  ['inputs', 'configurations'], 'every total, every number of ranks within the bound, and every global number', 'tests use one total on the ranks available',
  [S+'linpart.cpp'], [('quotient and remainder arithmetic', S+'linpart.cpp')], ['linear_partition_size', 'globals_to_linear_owners', 'find_total_globals'])
p('C08', 'Derived adjacencies are exact',
  'For every mesh given by element-to-vertex connectivity, each lower-dimensional entity is created exactly once, downward adjacency names the right sides with alignment codes that really map the stored vertex order onto the element order, upward adjacency is the exact inverse, and same-dimension adjacency (the dual and star graphs) contains exactly the entities sharing a side.',
  ['inputs'], 'every small simplex and hypercube connectivity in the bound, under every vertex numbering and element orientation explored', 'tests derive adjacencies of a few fixed meshes; alignments depend on the vertex numbering of every element',
  [S+'adj.cpp', S+'align.cpp', S+'simplex.hpp', S+'hypercube.hpp', S+'mesh.cpp'], [('hashing sides to canonical vertex order and matching', S+'adj.cpp')], ['reflect_down', 'find_unique', 'invert_adj', 'transit', 'Mesh::ask_down', 'Mesh::ask_up', 'Mesh::ask_dual', 'Mesh::ask_star'])
p('C09', 'Alignment codes form a group acting on entity vertices',
  'Composing alignment codes equals applying them one after the other, inverting one undoes it, and aligning adjacency lists with them agrees with permuting the vertices. Packing and unpacking a code is lossless, and the canonical code of a vertex tuple is the one that brings the smallest vertex to the front.',
  ['inputs'], 'every code of every degree supported and every vertex tuple', 'tests check selected codes',
  [S+'align.hpp', S+'align.cpp', S+'few.hpp'], [('rotation and flip packed in a byte', S+'align.hpp')], ['compound_alignments', 'invert_alignment', 'align_adj', 'get_codes_to_canonical'])
p('C10', 'Canonical element templates are mutually consistent',
  'For simplices and hypercubes of every dimension, the tables that list the vertices of sides, the sides of sides, the upward relations and the opposite entities agree with one another and are oriented consistently: each side of a side is reached with the vertices the direct table lists, opposite entities share no vertices, and outward orientation cancels on shared edges.',
  ['inputs'], 'every dimension, side and sub-side index of both element families', 'tests check few entries of the tables and compile-time consistency is not enforced',
  [S+'simplex.hpp', S+'hypercube.hpp', S+'element.hpp', S+'template_up.hpp'], [('constant tables as switch functions', S+'simplex.hpp')], ['simplex_down_template', 'hypercube_down_template', 'element_degree'])
p('C11', 'Independent sets are independent and maximal',
  'For every graph, candidate set and quality assignment, the chosen set contains only candidates, no two chosen nodes are adjacent, and every candidate left out is adjacent to a chosen node. The choice does not depend on how the graph is numbered beyond ties in quality, which the global numbers break.',
  ['inputs'], 'every graph, candidate set, quality and global numbering in the bound', 'tests run two or three fixed graphs; the loop must terminate and the result be maximal for all of them',
  [S+'indset.cpp', S+'indset_inline.hpp'], [('iterated local maxima by quality then global number', S+'indset_inline.hpp')], ['find_indset'])
p('C12', 'Distributed exchange delivers every item to its destinations, in order',
  'Given any set of destination ranks and slots for local items, a distributed exchange delivers exactly the items addressed to each slot, with every component of each item intact; inverting an exchange sends data back to where it came from, and reductions over the copies of an item combine exactly those copies.',
  ['inputs', 'configurations', 'schedules'], 'every assignment of items to ranks and slots within the bound, over 1 to 3 ranks', 'MPI tests run fixed exchanges on the ranks available',
  [S+'dist.cpp', S+'remotes.cpp', S+'comm.cpp'], [('sorted item-to-message maps with neighbor all-to-all exchange', S+'dist.cpp')], ['Dist::exch', 'Dist::exch_reduce', 'Dist::invert', 'Dist::set_parent_comm'])
p('C13', 'Communication completes correctly under every message schedule',
  'Collectives, neighbor exchanges and sub-communicator operations complete without deadlock and deliver the same data whatever order ranks are scheduled in, whether sends are buffered or synchronous, and leave no unreceived messages, requests or communicators behind.',
  ['schedules', 'inputs'], 'every interleaving of 2 or 3 ranks at communication calls within the bound', 'a test run samples one schedule of one MPI implementation; deadlock and matching depend on the schedule',
  [S+'comm.cpp', S+'comm.hpp', S+'dist.cpp', S+'future.cpp'], [('graph communicators and neighborhood collectives emulated with point-to-point', S+'comm.cpp')], ['Comm::allgather', 'Comm::alltoallv', 'Comm::graph', 'Comm::split'])
p('C14', 'Asynchronous results are complete when they say so',
  'A pending communication result reports itself complete only when its data can be read, and keeps reporting so; taking the data blocks until it is complete, and yields exactly what the blocking operation would have produced.',
  ['schedules', 'histories'], 'every order in which messages complete relative to polling', 'tests poll on timing-dependent runs',
  [S+'future.cpp', S+'future.hpp', S+'comm.cpp', S+'dist.cpp'], [('request set polled or waited for', S+'future.cpp')], ['Future::completed', 'Future::get', 'Comm::ialltoallv'])
p('C15', 'Ownership is unique and shared copies agree after synchronisation',
  'From any distribution of globally numbered copies over ranks, exactly one copy of each global number becomes its owner, and all copies agree on it; renumbering owned items is consecutive and copy-independent; synchronising a field makes every copy equal the owner\'s value, and reducing it leaves the reduction over all copies with the owner, from where a synchronisation hands it to every copy.',
  ['inputs', 'configurations'], 'every distribution of copies over 1 to 3 ranks in the bound', 'MPI tests check fixed partitions of a box',
  [S+'owners.cpp', S+'globals.cpp', S+'dist.cpp', S+'mesh.cpp', S+'linpart.cpp'], [('owner selection through a linear partition', S+'owners.cpp')], ['owners_from_globals', 'globals_from_owners', 'Mesh::sync_array', 'Mesh::reduce_array'])
p('C16', 'Repartitioning preserves the mesh and its data',
  'Migrating elements to any assignment of ranks, ghosting and un-ghosting, leaves the set of entities (by global number), their adjacencies, coordinates, classification and every attached field unchanged, with exactly one owner for each entity; layers of ghosts contain exactly the elements reachable through that many vertex hops.',
  ['inputs', 'configurations'], 'every assignment of the elements of small meshes to 1 to 3 ranks', 'tests migrate along bisection only, on fixed meshes',
  [S+'migrate.cpp', S+'ghost.cpp', S+'owners.cpp', S+'mesh.cpp', S+'unmap_mesh.cpp'], [('push elements, then form unique use-based lower entities', S+'migrate.cpp')], ['Mesh::migrate', 'Mesh::set_parting', 'Mesh::balance'])
p('C17', 'Binary mesh files round-trip exactly',
  'Reading back a binary mesh file yields a mesh equal in every array to the one written: dimension, connectivity, classification, sets and every attached field of every type, bit for bit, and each primitive writer is inverted by its reader independently of the byte order of the machine.',
  ['inputs'], 'every value of every stored field, names and component counts in the bound, compressed or not', 'tests round-trip one box mesh with one or two fields',
  [S+'file.cpp', S+'file.hpp'], [('typed stream writers and readers with byte swapping', S+'file.cpp')], ['binary::write', 'binary::read', 'binary::write_array', 'binary::read_array'])
p('C18', 'Encodings used by visualization output round-trip',
  'Base64 text decodes to the bytes it was made from, for every length and content; XML tags written by the library are recognised with the same name, attributes and kind, and text that is not a tag is rejected; arrays written to visualization files read back equal in every bit.',
  ['inputs'], 'every byte string up to the length bound; every symbolic tag text in the bound', 'tests encode a handful of strings',
  [S+'base64.cpp', S+'xml_lite.cpp', S+'vtk.cpp'], [('table-driven encoder and decoder', S+'base64.cpp'), ('tag scanner', S+'xml_lite.cpp')], ['base64::encode', 'base64::decode', 'parse_xml_tag', 'vtk::write_array', 'vtk::read_array'])
p('C19', 'Automata and regular expressions accept exactly their language',
  'The automaton built from a regular expression accepts a string exactly when the expression matches it; making an automaton deterministic, minimising it, uniting and concatenating automata preserve the language; lexing takes the longest match and, among equals, the first token in declaration order.',
  ['inputs'], 'every string up to the length bound over a symbolic alphabet, for a family of expressions', 'tests try a few accepted and rejected strings per expression',
  [S+'finite_automaton.cpp', S+'regex.cpp', S+'chartab.cpp', S+'reader.cpp', S+'language.cpp'], [('subset construction and partition refinement', S+'finite_automaton.cpp')], ['FiniteAutomaton', 'build_lexer', 'regex::build_dfa'])
p('C20', 'Parsers accept exactly the grammar and build the right derivation',
  'The parser generated for a grammar accepts a token sequence exactly when the grammar derives it, calls the reductions in the order of the rightmost derivation, and reports an error, without crashing, on every other input.',
  ['inputs'], 'every token sequence up to the length bound for a family of grammars', 'tests parse a few sentences',
  [S+'build_parser.cpp', S+'parser.cpp', S+'grammar.cpp', S+'reader.cpp', S+'parser_graph.cpp'], [('LR(1) construction with lane tracing', S+'build_parser.cpp')], ['build_lalr1_parser', 'accept_parser', 'Reader::read_string'])
p('C21', 'Expressions evaluate to their mathematical meaning',
  'Evaluating a user expression gives the value its operator precedence, associativity and function definitions prescribe, elementwise over array inputs; boolean and comparison operators and conditionals select exactly one branch per entry; evaluation as a compiled operation list equals direct evaluation.',
  ['inputs'], 'every assignment of values to the variables of a family of expressions', 'tests evaluate each expression at one or two points',
  [S+'expr.cpp', S+'math_lang.cpp'], [('reader actions that evaluate over scalars or arrays', S+'expr.cpp')], ['ExprReader', 'ExprOpsReader'])
p('C22', 'The ordered container keeps its balance and order invariants',
  'After every sequence of insertions and removals the red-black tree contains exactly the inserted and not removed keys, iterates over them in ascending order in both directions, finds exactly those present, and satisfies its colouring and black-height invariants.',
  ['histories'], 'every sequence of insertions and removals of arbitrary keys up to the length bound', 'no test drives deletion rebalancing through all shapes',
  [S+'rbtree.hpp'], [('red-black insertion and removal fixup', S+'rbtree.hpp')], ['rb_tree'])
p('C23', 'Refinement splits the chosen edges and nothing else',
  'Refining a mesh along any admissible set of edges yields a valid mesh: each old element is kept or replaced by two children that exactly fill it, with positive size and the same orientation, the result is conforming, new vertices lie at the edge midpoints and inherit classification, and total size is conserved.',
  ['inputs'], 'every marking of edges of small meshes and every position of the vertices in the bound', 'tests refine one or two fixed meshes with one size field',
  [S+'refine.cpp', S+'refine_topology.cpp', S+'refine_qualities.cpp', S+'modify.cpp'], [('cavity of each key edge replaced by product elements', S+'refine_topology.cpp')], ['refine_by_size', 'refine_edges_to_pairs'])
p('C24', 'Coarsening collapses only admissible edges and keeps the mesh valid',
  'Coarsening a mesh never inverts an element, never collapses a vertex across the model boundary its classification forbids, keeps the mesh conforming with consistent adjacencies, and preserves the total size and the boundary of the domain.',
  ['inputs'], 'every choice of candidate collapses on small meshes in the bound', 'tests coarsen a few fixed meshes',
  [S+'coarsen.cpp', S+'check_collapse.cpp', S+'collapse_rail.cpp', S+'coarsen_topology.cpp', S+'coarsen_qualities.cpp', S+'modify.cpp'], [('collapse codes filtered by classification, exposure and quality', S+'check_collapse.cpp')], ['coarsen_by_size', 'check_collapse_class', 'check_collapse_exposure'])
p('C25', 'Edge swapping keeps the mesh valid and improves quality',
  'Swapping edges changes only the cavities of interior, same-class edges whose best alternative is better than the present quality, keeps all other elements, keeps the mesh conforming and positively oriented, and preserves total size.',
  ['inputs'], 'every marking and vertex position of small meshes in the bound; every loop size and swap table entry', 'tests swap one or two configurations',
  [S+'swap.cpp', S+'swap2d.cpp', S+'swap3d.cpp', S+'swap3d_tables.hpp', S+'swap3d_choice.hpp', S+'swap3d_loop.hpp'], [('retriangulation tables per loop size', S+'swap3d_tables.hpp')], ['swap_edges', 'swap_edges_2d', 'swap3d'])
p('C26', 'Field transfer inherits and conserves',
  'Across a mesh modification, unmodified entities keep every attached value, linear nodal fields are interpolated at new vertices, pointwise and density fields are inherited by the children of their element, and conserved integrals keep their total over each cavity.',
  ['inputs'], 'every field value on small meshes and every marking in the bound', 'tests check one field on one mesh',
  [S+'transfer.cpp', S+'conserve.cpp', S+'modify.cpp'], [('same/product entity maps used to move field data', S+'transfer.cpp')], ['transfer_refine', 'transfer_coarsen', 'transfer_swap'])
p('C27', 'Space-filling curve order is a bijection and preserves locality',
  'Hilbert curve indices visit every cell of a power-of-two grid exactly once, consecutive indices are adjacent cells, and coarser indices are prefixes of finer ones; sorting a mesh by the curve yields a permutation of its entities that does not depend on the initial numbering.',
  ['inputs'], 'every cell of grids up to the bit bound in two and three dimensions', 'tests compare a few curve points',
  [S+'hilbert.cpp', S+'hilbert.hpp'], [('Skilling transform on interleaved bits', S+'hilbert.hpp')], ['hilbert::from_spatial', 'sort_coords'])
p('C28', 'Small dense linear algebra satisfies its algebraic laws',
  'Products, transposes, determinants, inverses, cross and dot products, symmetric storage and diagonal matrices of dimensions one to three satisfy their defining identities exactly on values where arithmetic is exact: inverse times matrix is the identity, determinants multiply, packed symmetric storage round-trips.',
  ['inputs'], 'every integer-valued matrix in the bound', 'tests use a few literal matrices',
  [S+'matrix.hpp', S+'vector.hpp', S+'few.hpp'], [('fixed-size templates', S+'matrix.hpp')], ['determinant', 'invert', 'cross', 'symm2vector', 'vector2symm'])
p('C29', 'Bounding boxes and affine maps are exact',
  'A bounding box contains all the points it was built from and each of its faces touches one; uniting boxes is commutative, associative and idempotent; an affine map composed with its inverse is the identity on values where arithmetic is exact.',
  ['inputs'], 'every set of points in the bound', 'tests use literal points',
  [S+'bbox.cpp', S+'bbox.hpp', S+'affine.hpp'], [('componentwise minimum and maximum reduction', S+'bbox.cpp')], ['find_bounding_box', 'unite', 'Affine'])
p('C30', 'Attached fields are stored, found and removed by name',
  'After any sequence of adding, replacing and removing fields on mesh entities, each field present has the last value set, its component count and its type; no other field is disturbed; asking for absent or mistyped fields is refused rather than answered wrongly.',
  ['histories', 'inputs'], 'every sequence of field operations up to the length bound with arbitrary values', 'tests add and remove a few fields in one order',
  [S+'mesh.cpp', S+'tag.cpp'], [('named tag list per dimension with cache invalidation', S+'mesh.cpp')], ['Mesh::add_tag', 'Mesh::set_tag', 'Mesh::remove_tag', 'Mesh::get_array'])
p('C31', 'Boundary classification is consistent and complete',
  'Classifying a mesh from its elements marks a side as interior exactly when two elements share it, classifies lower entities by what bounds them, never classifies an entity below its own dimension, and projecting classification down or up gives every entity the class of the lowest-dimensional model entity it bounds.',
  ['inputs'], 'every element-class assignment on small meshes in the bound', 'tests classify a box',
  [S+'class.cpp', S+'surface.cpp', S+'mark.cpp'], [('projection of class ids through adjacency', S+'class.cpp')], ['classify_elements', 'classify_equal_order', 'project_classification', 'mark_exposed_sides'])
p('C32', 'Quad and octree refinement covers each parent exactly',
  'Adaptive refinement of hypercube meshes replaces each marked element by children that exactly fill it, shares the new entities between neighbors, records for each child its parent and position, keeps the one-level difference rule, and leaves unmarked leaves unchanged.',
  ['inputs'], 'every marking of the elements of small quad and hex meshes, one or two rounds', 'tests refine one fixed marking',
  [S+'amr.cpp', S+'amr_topology.cpp', S+'amr_transfer.cpp', S+'hypercube.hpp'], [('per-dimension child counts with split vertex tables', S+'amr_topology.cpp')], ['amr::refine', 'mark_leaf_adj', 'Mesh::ask_leaves', 'Mesh::ask_parents'])
p('C33', 'Pseudo-random streams are reproducible and in range',
  'The random number generator output depends only on key and counter, uniform deviates always lie in the documented interval, and distinct counters of a key give distinct blocks.',
  ['inputs'], 'every key and counter', 'tests draw a few samples',
  [S+'random.cpp', S+'random_inline.hpp'], [('counter-based block cipher generator', S+'random_inline.hpp')], ['unit_uniform_deviate_from_double_bits', 'run_philox_cbrng'])
p('C34', 'Command lines and file paths are handled as documented',
  'Command-line parsing recognises exactly the declared flags and arguments in any order, stores every value where it was declared, and rejects unknown flags and missing arguments; joining a path and splitting off its parent, file name, stem and extension are mutually consistent.',
  ['inputs'], 'every argument sequence and path string up to the length bound', 'tests parse one or two command lines',
  [S+'cmdline.cpp', S+'cmdline.hpp', S+'filesystem.cpp'], [('flag and argument matching', S+'cmdline.cpp'), ('path string operations', S+'filesystem.cpp')], ['CmdLine::parse', 'path'])
p('C35', 'Mesh comparison finds every difference beyond tolerance and no other',
  'Comparing two arrays or meshes reports them equal exactly when every value agrees within the given relative tolerance and floor, reports every missing or extra field, and is symmetric.',
  ['inputs'], 'every pair of values and arrays in the bound', 'tests compare few meshes',
  [S+'compare.cpp', S+'compare.hpp', S+'scalar.hpp'], [('relative difference with a floor', S+'scalar.hpp')], ['compare_arrays', 'compare_meshes', 'are_close'])
p('C36', 'Metric tensors measure, bound and interpolate as defined',
  'Lengths, size-to-metric conversions, clamping and element counts of isotropic and diagonal metrics satisfy their definitions: a clamped metric lies within bounds, conversion and its inverse agree, isotropic metrics behave the same in scalar and tensor form.',
  ['inputs'], 'every diagonal metric in the bound', 'tests use literal metrics',
  [S+'metric.hpp', S+'metric.cpp', S+'shape.hpp'], [('eigenvalue operations on metric tensors', S+'metric.hpp')], ['clamp_metrics', 'metric_length', 'metric_from_length'])
p('C37', 'Polyhedral clipping conserves volume',
  'Clipping a polytope by a plane yields the part on its positive side: the volumes of the two complementary parts add up to the whole, and intersecting two simplices gives the volume of their common part.',
  ['inputs'], 'every integer plane through the bound', 'tests clip one tetrahedron',
  [S+'r3d.hpp'], [('vertex graph clipping', S+'r3d.hpp')], ['r3d::clip', 'r3d::integrate'])
p('C38', 'Timers and profiles balance under every call path',
  'Every profiled operation leaves the call-tree position where it found it on every path including early returns, so accumulated profiles have the shape of the call tree.',
  ['histories'], 'every sequence of profiled operations in the bound', 'tests do not inspect the profile tree',
  [S+'profile.cpp', S+'profile.hpp'], [('stack of current frames', S+'profile.cpp')], ['profile::begin_code', 'profile::end_code'])
p('C39', 'Generated box meshes tile the box',
  'Building a box from any numbers of cells along each axis gives a conforming, positively oriented simplex or hypercube mesh with the right numbers of entities whose sizes add up to the box, classified on exactly the box\'s faces, edges and corners.',
  ['inputs', 'configurations'], 'every cell count in the bound in one to three dimensions, both families', 'tests build a few counts',
  [S+'build.cpp', S+'box.cpp', S+'simplify.cpp'], [('cell index arithmetic and subdivision tables', S+'box.cpp')], ['build_box', 'make_3d_box', 'simplify'])
p('C40', 'Bisection partitions balance without losing or duplicating elements',
  'Recursive bisection gives every element to exactly one part and balances the weights of the two halves to within the requested tolerance at each cut wherever the elements can be told apart along the axis; redistributing marked items over ranks keeps exactly the marked and unmarked items, separated.',
  ['inputs', 'configurations'], 'every weight and mark assignment in the bound over 1 to 4 ranks', 'tests bisect one box',
  [S+'inertia.cpp', S+'bipart.cpp', S+'mesh.cpp'], [('median cut search by halving the distance', S+'inertia.cpp'), ('two-part redistribution', S+'bipart.cpp')], ['recursively_bisect', 'bi_partition', 'inertia::mark_bisection'])
