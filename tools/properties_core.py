# Source of properties.jsonl (tools/generate.py writes it), the part decided on the buildable core.
def P(id, title, statement, over, quantifier, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        a["observe_at"] = [observe]
    if state:
        a["state"] = state
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why, "anchors": a}


CORE = [
    P("P01", "Every entry of the input files is read by exactly one rank",
      "For any list of input files (empty ones included) and any number of ranks, the regions the ranks read cover every entry of every file exactly once, in the order of files and ranks, and stay inside their files. No region is empty, and every rank reads at least the total divided by the number of ranks, with at most the remainder on top.",
      ["inputs", "configurations"], "all lists of file sizes (zero, tiny, huge, aligned with rank boundaries or not) and all rank counts, more ranks than entries included",
      "The tests sample five small lists without runs of empty files or more ranks than entries.",
      ["src/io/file_distribution.rs", "src/io/input/mod.rs"],
      [("division of the entries between ranks", "src/io/file_distribution.rs get_input_rank_assignment, get_rank_assignment"), ("walk over the file boundaries", "src/io/file_distribution.rs get_regions_from")],
      "the regions returned for every rank"),
    P("P02", "Every written entry has exactly one slot in the output files",
      "For any number of entries per rank and any number of files, the regions the ranks write fill every file from its start without gap or overlap, in the order of ranks, and each rank has exactly as many slots as entries. Every file gets at least the total divided by the number of files, with at most the remainder on top.",
      ["inputs", "configurations"], "all distributions of entries over ranks, idle ranks included, and all numbers of files, more files than entries included",
      "No test covers the output side at all; the input tests sample a handful of sizes.",
      ["src/io/file_distribution.rs", "src/io/output/mod.rs"],
      [("division of the entries between files", "src/io/file_distribution.rs get_output_rank_assignment"), ("walk over the file boundaries", "src/io/file_distribution.rs get_regions_from")],
      "the regions returned for every rank"),
    P("P03", "The space-filling curve is a bijection that keeps neighbours together",
      "For every box and every level of refinement, the keys of positions order the cells of the box along a curve: all positions of a cell have the same key at that level, different cells have different keys, cells with consecutive keys share a face, and every aligned block of cells is one contiguous range of keys. Every position in the closed box has a key, its faces and corners included.",
      ["inputs"], "all boxes in two and three dimensions, all positions in them, all levels down to the full 64 and 126 bits",
      "The tests compare a handful of points at coarse levels; a wrong entry in the tables or a wrong mask at a deep level goes unnoticed.",
      ["src/peano_hilbert.rs", "src/domain/key.rs"],
      [("keys in two dimensions", "src/peano_hilbert.rs PeanoKey2d::from_point_and_min_max, from_integer_pos, rot"), ("keys in three dimensions", "src/peano_hilbert.rs PeanoKey3d::from_point_and_min_max, tables")],
      "the keys of positions"),
    P("P04", "The sign of a determinant is that of the exact determinant",
      "For every square matrix of up to five rows whose entries do not exceed a quarter in magnitude, the sign reported for its determinant is the sign of the exact determinant of the given floating point numbers, also if it is exactly or nearly singular; for entries of any scale this holds whenever the determinant exceeds 1e-11 of the sum of the magnitudes of its terms. The determinants computed exactly are equal to the exact value, and a sign is taken from a rounded value only if the value is at least as large as the stated error bound.",
      ["inputs"], "all matrices of 2x2 to 5x5 floating point numbers, exactly and nearly singular ones, wide ranges of magnitudes and one-bit perturbations of degenerate configurations included",
      "The tests compare a few dozen random matrices, almost none of which are close to singular, and one list of fixed ones.",
      ["src/voronoi/math/utils.rs", "src/voronoi/math/traits.rs", "src/voronoi/math/precision_types.rs"],
      [("fast sign with fallback to exact arithmetic", "src/voronoi/math/utils.rs determinant_NxN_sign"), ("error bounds", "src/voronoi/math/utils.rs, precision_types.rs PrecisionError"), ("exact numbers", "src/voronoi/math/traits.rs")],
      "the reported sign and the exact value"),
    P("P05", "Linear systems are solved, and singular ones are refused",
      "For every regular system of three (or four augmented) equations within the range of floating point numbers the returned solution satisfies the equations to a relative residual of 1e-12 in floating point arithmetic and without any error in exact arithmetic. A system for which a solution might not exist is refused rather than answered with a wrong solution, and no well-conditioned system is refused.",
      ["inputs"], "all coefficients, with rows that need to be exchanged, zeros anywhere, badly scaled rows and exactly singular systems",
      "The tests solve a handful of fixed systems, none of which needs more than one exchange of rows.",
      ["src/voronoi/math/utils.rs"],
      [("elimination with row exchanges", "src/voronoi/math/utils.rs solve_system_of_equations"), ("refusal of singular systems", "src/voronoi/math/utils.rs solve_3x4_system_of_equations_error")],
      "solutions and refusals"),
    P("P06", "Messages between ranks arrive exactly once, in order and unmodified",
      "Whatever the ranks exchange, each rank receives from every other rank exactly what was sent to it, element by element, in the order sent, exactly once, with nothing left over, lost, or taken over from another exchange, tag or type of message, and every exchange has an entry for every other rank. No schedule of delays, of early or late receivers or of sends that wait for their receiver leads to a deadlock, and data handed to a send stays untouched until the send is complete, which every send is in the end. Data divided into pieces for a common number of rounds is complete, in order and in the same number of pieces on all ranks.",
      ["schedules", "histories", "inputs"], "all histories of exchanges of any size (empty and beyond all eager limits) on any number of ranks, all interleavings of the ranks",
      "The stable tests run on a single rank, where nothing is exchanged.",
      ["src/communication/exchange_communicator.rs", "src/communication/mpi_world.rs", "src/communication/data_by_rank.rs", "src/communication/sized_communicator.rs"],
      [("exchange with every other rank", "src/communication/exchange_communicator.rs exchange_all, receive_vec, empty_send_to_others"), ("point-to-point messages", "src/communication/mpi_world.rs receive_vec, try_receive_vec, immediate_send_vec"), ("tags per type", "src/communication/mpi_world.rs get_tag_for_type"), ("common number of rounds", "src/communication/exchange_communicator.rs divide_into_chunks_with_same_num_globally")],
      "every message at its receiver, every MPI call of every rank"),
    P("P07", "Collective operations agree with their sequential definition on every rank",
      "On every rank, a gather returns the contributions of all ranks in the order of ranks, with contributions of different length one after the other, and sums, minima and maxima over ranks are those of all contributions. Every rank gets the same result, a comparison of values over ranks is true on all ranks exactly if all values are equal, and with assertions enabled a collective entered with different kinds of data is refused on all ranks.",
      ["inputs", "histories", "configurations"], "all contributions (negative, huge, equal, empty), any number of ranks, all histories of such operations",
      "The stable tests run on a single rank.",
      ["src/communication/mpi_world.rs"],
      [("gathers and reductions", "src/communication/mpi_world.rs all_gather, all_gather_sum, all_gather_min, all_gather_max, all_reduce_sum"), ("contributions of different length", "src/communication/mpi_world.rs all_gather_varcount"), ("comparison over ranks", "src/communication/mpi_world.rs all_ranks_have_same_value")],
      "the result on every rank"),
    P("P08", "Data kept per rank stays with its rank",
      "Through any history of insertions, removals, iterations and drains, a collection of data per rank returns for every rank what was last stored for it and nothing for ranks without data, iterates in the order of ranks over exactly those, and counts what it holds. A collection made for a communicator has an entry for every other rank and none for the rank itself unless asked for.",
      ["histories"], "all histories of operations on collections of any size",
      "Two tests insert three values and iterate once.",
      ["src/communication/data_by_rank.rs", "src/communication/sized_communicator.rs"],
      [("storage per rank", "src/communication/data_by_rank.rs DataByRank"), ("iteration by value", "src/communication/data_by_rank.rs IntoIter")],
      "all accessors after every operation"),
    P("P09", "Values survive their transport bit by bit",
      "Optional values, keys, extents and direction indices that are packed, sent to another rank, gathered or copied arrive with the same bits in every field, alone or in arrays of any length, and an absent value arrives as absent. Converting optional values to and from their transportable form neither reads uninitialised memory nor loses, duplicates or leaks the value.",
      ["inputs", "histories"], "all values, present and absent, of all transportable types, nested ones and types with padding and strict alignment included",
      "The tests pack four single values; arrays, alignment, keys and extents are not covered, and undefined behaviour does not fail a test.",
      ["src/communication/communicated_option.rs", "src/peano_hilbert.rs", "src/extent.rs", "src/sweep/direction/mod.rs"],
      [("transportable optional values", "src/communication/communicated_option.rs CommunicatedOption"), ("keys as pairs of integers", "src/peano_hilbert.rs PeanoKey3d"), ("extents", "src/extent.rs Equivalence for Extent")],
      "values before and after transport"),
    P("P10", "Mesh elements stay reachable under their own index",
      "Through any history of insertions, removals, reservations and lookups an index returns exactly the value it was given for until that is removed, and never again anything afterwards, even if its place is used for another value. The number of elements and every iteration agree with what was inserted and not removed, and growing sequences hand out consecutive indices.",
      ["histories"], "all histories of operations on the collections that hold the elements of a mesh",
      "No test exercises the collections themselves.",
      ["src/voronoi/indexed_arena.rs"],
      [("collection with removal", "src/voronoi/indexed_arena.rs IndexedArena"), ("growing sequence", "src/voronoi/indexed_arena.rs IndexedVec")],
      "all accessors after every operation"),
    P("P11", "Extents enclose their points tightly, and vector geometry is exact enough",
      "The extent of any set of points has as its corners the smallest and largest coordinate in every dimension, whatever the order of the points, none for no points, with the matching center, side lengths, longest side and the threefold extent around it. Distances, products, norms and largest elements of vectors agree with their definitions in floating point as well as in exact arithmetic.",
      ["inputs"], "all point sets and vectors in two and three dimensions over many orders of magnitude",
      "The tests cover one set of three points in two dimensions.",
      ["src/extent.rs", "src/voronoi/math/traits.rs"],
      [("extent of points", "src/extent.rs get_extent_from_min_and_max_reduce, from_points, from_min_max"), ("vector operations", "src/voronoi/math/traits.rs DVector, Dot, Cross3d")],
      "extents and products"),
    P("P12", "Directions are evenly spread unit vectors, and rotations are proper and unbiased",
      "Every tabulated set of directions has the requested number of unit vectors, which sum to zero, are spread evenly over the sphere and weight all axes equally. A rotation about an axis by an angle is the proper rotation by that angle, keeps lengths and the axis, and random rotations are proper rotations that prefer no axis and no angle and are the same for the same seed.",
      ["inputs", "configurations"], "all supported numbers of directions, all axes, angles and seeds",
      "One test rotates a few fixed vectors; no test looks at the tables or at the distribution.",
      ["src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs"],
      [("tables of directions", "src/sweep/direction/healpix.rs"), ("rotations", "src/sweep/direction/mod.rs rotation functions"), ("random rotations", "src/sweep/direction/mod.rs DirectionsRng")],
      "directions and rotation matrices"),
    P("P13", "Counters per direction and the numbering of tree nodes are consistent",
      "Through any history of updates the counter of a direction is its initial value minus what was taken away for that direction alone, whatever happens for other directions, and the total is the sum over all directions. The numbers that stand for a node of the search tree and for its children are all different and lead back to the node they stand for.",
      ["histories", "inputs"], "all histories of counter updates with any number of directions, all children",
      "No test looks at a history of counters.",
      ["src/sweep/count_by_dir.rs", "src/quadtree/node_index.rs"],
      [("counters per direction", "src/sweep/count_by_dir.rs CountByDir"), ("numbering of children", "src/quadtree/node_index.rs NodeIndex")],
      "counters after every operation, numbers of children"),
]
