SIMNOTE = "Evidence by seeded search, not proof. Trusts the simulated MPI and the oracle; real t8code, libsc and p4est code runs unmodified."
def P(id, title, statement, over, qtext, why, files, mech, oracle, note="", observe=""):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            "oracle": oracle, "note": (note + " " if note else "") + SIMNOTE}
HIST = ["histories", "schedules", "inputs", "configurations"]
ANY = "every coarse mesh and scheme, every adapted forest, every number and arrangement of processes (including empty ones), every legal message timing"
WHY = "The tests run a few fixed meshes on one or few processes with whatever schedule the MPI library produces; "
F = "src/t8_forest/"
C = "src/t8_cmesh/"
PROPS = [
P("C01", "Repartitioning neither changes nor loses any part of the mesh",
  "Whenever a forest is repartitioned (equally, by weights, by prescribed offsets or such that families stay together), the leaves of all processes, concatenated by rank, are exactly the leaves there were before, in the same order, none lost, duplicated, changed or overlapping. All processes agree on the global number of leaves, and the global number each reports for its first leaf is the number of leaves on the ranks before it.",
  HIST, ANY, WHY + "messages that arrive late, in another order or on empty processes are never produced.",
  [F + "t8_forest_partition.cxx", F + "t8_forest_partition_for_coarsening.cxx", F + "t8_forest_pfc_message.hxx"],
  [("new offsets", "t8_forest_partition_compute_new_offset"), ("sending and receiving leaf ranges", "t8_forest_partition_given")],
  "oracle: global leaf sequence before and after, counts and first-leaf numbers of all ranks"),
P("C02", "A partition gives every process the load that was asked for",
  "After an equal partition the numbers of leaves of any two processes differ by at most one. After a partition with prescribed offsets every process starts at the leaf prescribed for it. After a weighted partition each process starts at the leaf at which the accumulated weight reaches its equal share of the total weight; leaves without weight, even all of them, are divided as well. The same holds for the partition in a commit that also adapts before and balances after it, and balancing with repartition ends equally distributed.",
  HIST, "every adapted forest, weight function with non-negative weights, list of prescribed offsets, number of processes, reduction order and message timing",
  WHY + "rounding of weight sums, extreme weights, empty shares and other reduction orders are not sampled.",
  [F + "t8_forest_partition.cxx"],
  [("equal and weighted offsets", "t8_forest_partition_compute_new_offset"), ("prescribed offsets", "t8_forest_set_partition_offset")],
  "oracle: exact share of every rank computed from the global sequence of leaves and weights"),
P("C03", "The mesh does not depend on the number of processes or the schedule",
  "The same sequence of creation, adaptation, balancing and repartitioning produces the same global sequence of leaves on any number of processes, with the coarse mesh replicated or distributed, and under any message timing, as on one process. (Coarsening is compared where no family is split between processes.)",
  HIST, ANY + ", compared with the same history on one process and with a model of the callback's decisions",
  WHY + "no test compares a distributed run with a serial one over histories.",
  [F + "t8_forest.cxx", F + "t8_forest_adapt.cxx", F + "t8_forest_balance.cxx", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx"],
  [("adaptation per local leaf", "t8_forest_adapt"), ("commit of combined operations", "t8_forest_commit"), ("uniform creation", "t8_forest_populate")],
  "oracle: refinement against the same history on one process"),
P("C04", "Balance yields the coarsest 2:1 balanced refinement on any distribution",
  "After balancing, no two leaves that share a face differ by more than one level, also across trees and process boundaries, and the result is the least refinement of the input with that property, the same for every distribution and timing. The query whether a forest is balanced agrees. Balancing without repartition leaves every leaf's region on its process; balancing with repartition ends equally distributed.",
  HIST, ANY, WHY + "refinement that ripples over several processes, through empty ones, is not sampled, nor is minimality tested.",
  [F + "t8_forest_balance.cxx", F + "t8_forest_ghost.cxx"],
  [("rounds of adapt with ghosts until no process refines", "t8_forest_balance"), ("decision per leaf", "t8_forest_balance_adapt")],
  "oracle: brute-force least 2:1 closure over the global leaf list"),
P("C05", "The ghost layer is exactly the face-neighbouring leaves of other processes",
  "With a face ghost layer, each process holds precisely the leaves of other processes that share a face with one of its own leaves: none missing, none superfluous, each once, sorted per owner in mesh order, in the right tree, and attributed to the right owner. This holds for every available ghost algorithm and for unbalanced meshes.",
  HIST, ANY, WHY + "exactness of the layer is not compared with an independent computation, and messages are never reordered.",
  [F + "t8_forest_ghost.cxx"],
  [("remote leaves per neighbour process", "t8_forest_ghost_fill_remote"), ("exchange of ghost trees and elements", "t8_forest_ghost_send_start")],
  "oracle: brute-force neighbour computation over the global leaf list"),
P("C06", "Ghost data exchange delivers the owner's current value to every copy",
  "After exchanging user data, the entry of every ghost holds bit for bit the value its owner held for that leaf when the exchange was called; local entries are unchanged. Repeated exchanges with changed data and different item sizes always deliver the newest values.",
  HIST, ANY + ", every item size, repeated exchanges", WHY + "values delivered late, into the wrong slot or from an earlier exchange are not provoked.",
  [F + "t8_forest_ghost.cxx"],
  [("packing and posting", "t8_forest_ghost_exchange_begin"), ("completion", "t8_forest_ghost_exchange_end")],
  "oracle: value computed from the identity of the leaf and the round"),
P("C07", "Data attached to leaves follows them through every repartition",
  "When per-leaf data is moved along with a repartition, the item each process receives for a leaf is bit for bit the item the leaf's previous owner had for it, in the order of the leaves; the input stays untouched and may be reused at once.",
  HIST, ANY + ", every item size", WHY + "the data path has its own send and receive ranges that no test drives with empty or disjoint ranges and delayed messages.",
  [F + "t8_forest_partition.cxx"],
  [("data ranges", "t8_forest_partition_data")],
  "oracle: value computed from the identity of the leaf"),
P("C08", "Face neighbours of a leaf are found across trees and processes",
  "Asked for the neighbours of a local leaf or ghost across a face, a process that has a ghost layer reports exactly the leaves that touch that face and are visible to it, each once, with the correct index, dual face, tree, class and orientation; a face on the domain boundary has none. The answer is the same wherever the leaves lie.",
  HIST, ANY, WHY + "hanging faces whose neighbours are partly local and partly ghosts, over several processes, are not sampled.",
  [F + "t8_forest.cxx", F + "t8_forest_iterate.cxx"],
  [("neighbour search in local and ghost leaves", "t8_forest_leaf_face_neighbors_ext")],
  "oracle: brute-force neighbour computation over the global leaf list"),
P("C09", "Every process knows the owner of every part of the mesh",
  "For any element in the domain, local or not, finer or coarser than the leaves, each process determines without communication the process that owns it (its first descendant), the set of processes that own leaves at one of its faces or across a face of a local leaf, and valid bounds for them. All processes give the same, correct answers, also with empty processes.",
  HIST, ANY + ", every element and face", WHY + "owner search over empty processes and shared trees is tested for uniform meshes only.",
  [F + "t8_forest.cxx", F + "t8_forest_partition.cxx"],
  [("owner search", "t8_forest_element_find_owner_ext"), ("face owners", "t8_forest_element_owners_at_face"), ("tables of first descendants and trees", "t8_forest_partition_create_first_desc")],
  "oracle: owner of the covering leaf in the global leaf list"),
P("C10", "Searching visits every matching leaf exactly once over all processes",
  "A top-down search starts at the nearest common ancestor of a process's leaves of a tree, visits each ancestor with local leaves and each local leaf exactly once unless the callback stops it, with correct leaf flags and leaf ranges, and passes each query only where its parent matched. All search interfaces agree, and a point query is answered by exactly one leaf over all processes. Walking from an element along one of its faces visits, unless it is stopped, each element at that face that has local leaves (or, in a ghost tree, ghosts) exactly once, with its face number, leaf flag and leaf range.",
  HIST, ANY + ", every stop and match pattern", WHY + "search is tested on uniform meshes without stopping or wrong matches.",
  [F + "t8_forest_iterate.cxx", F + "t8_forest_search/t8_forest_search.cxx", F + "t8_forest_search/t8_forest_search.hxx"],
  [("recursion over leaf ranges", "t8_forest_search_recursion"), ("class interface", "t8_search_base::search_recursion")],
  "oracle: preorder traversal recomputed from the leaf list of every rank"),
P("C11", "Partition for coarsening never splits a family between processes",
  "After a partition that is asked to allow coarsening, no complete family of leaves is divided between two processes, and each process boundary lies where the plain, weighted or prescribed partition would put it or at the nearest end of the family that would have been split there.",
  HIST, ANY, WHY + "families that span several processes or empty ones, and late messages between them, are not sampled.",
  [F + "t8_forest_partition_for_coarsening.cxx", F + "t8_forest_pfc_helper.cxx", F + "t8_forest_pfc_message.hxx", F + "t8_forest_partition.cxx"],
  [("correction of the offsets", "t8_forest_pfc_correction_offsets")],
  "oracle: families and boundaries recomputed from the global leaf list"),
P("C12", "A coarse mesh survives every way of distributing it",
  "A coarse mesh that was built replicated, distributed or from a partition table, and then redistributed any number of times (by a table, by ranges, for a uniform level, onto one process, at random, by percentages) or copied, is on every process the described mesh: the partition table is legal and the same everywhere and is the requested one; each process has exactly its trees, plus as ghosts exactly the trees across a face of its trees, with the described classes, face connections, orientations, attributes (bit for bit) and geometry. The source mesh stays intact.",
  ["histories", "schedules", "inputs", "configurations"], "every coarse mesh of any tree classes, face connections, orientations and attributes, every chain of partitions including shared trees and empty processes, every legal message timing",
  WHY + "partitions with empty processes, trees without attributes, shared first trees and non-neighbouring exchanges are sampled by a handful of examples only.",
  [C + "t8_cmesh_internal/t8_cmesh_partition.cxx", C + "t8_cmesh_internal/t8_cmesh_commit.cxx", C + "t8_cmesh_internal/t8_cmesh_trees.cxx", C + "t8_cmesh_internal/t8_cmesh_offset.c", C + "t8_cmesh_internal/t8_cmesh_stash.c", C + "t8_cmesh_internal/t8_cmesh_copy.cxx", C + "t8_cmesh.cxx"],
  [("redistribution", "t8_cmesh_partition_given"), ("building the local part", "t8_cmesh_commit_partitioned_new"), ("partition tables", "t8_cmesh_offset_percent")],
  "oracle: the description of the mesh as plain data, compared on every rank after every step"),
P("C13", "A coarse mesh described by one process reaches all processes unchanged",
  "Broadcasting a coarse mesh from any root, before or after its commit, gives every process the mesh the root described: the same trees, classes, face connections, orientations and attributes (bit for bit), ready to be committed, distributed, copied or broadcast again. The mesh generators that can broadcast or distribute the mesh by themselves yield the same mesh as when every process builds it alone.",
  ["histories", "schedules", "inputs", "configurations"], "every coarse mesh, root, number of processes, order of the description, later distribution, and message timing",
  WHY + "only broadcasts of two built-in meshes from process 0 are tested.",
  [C + "t8_cmesh.cxx", C + "t8_cmesh_internal/t8_cmesh_stash.c", C + "t8_cmesh_internal/t8_cmesh_trees.cxx", C + "t8_cmesh_examples.cxx"],
  [("broadcast", "t8_cmesh_bcast"), ("description before the commit", "t8_stash_bcast"), ("committed trees", "t8_cmesh_trees_bcast"), ("generators", "t8_cmesh_new_hypercube")],
  "oracle: the description of the mesh as plain data, compared on every rank"),
P("C15", "Reading a mesh file gives every process the mesh in the file or an agreed failure",
  "Reading a Gmsh file, by every process or by one process for all, yields exactly the mesh the file describes: trees in file order with their classes, corner coordinates, node data and vertex numbers, and faces joined with the right orientation exactly where two elements share their nodes; a process that did not read gets an empty part. If the file is missing, unreadable, truncated, inconsistent or of another kind, the call reports failure on every process (with one reader) or on each process affected, without crashing, hanging or leaving the file open.",
  ["inputs", "faults", "schedules", "configurations"], "every mesh file, every kind of damage or read fault at any point, every reading process and message timing",
  WHY + "the tests read intact example files; damaged files, failing reads and node tags with gaps are not sampled.",
  [C + "t8_cmesh_io/t8_cmesh_readmshfile.cxx", C + "t8_cmesh_internal/t8_cmesh_commit.cxx"],
  [("reading", "t8_cmesh_from_msh_file"), ("nodes", "t8_msh_file_4_read_nodes"), ("elements", "t8_cmesh_msh_file_4_read_eles"), ("faces", "t8_cmesh_msh_file_find_neighbors")],
  "oracle: the generated mesh as plain data, faces matched by node sets; the disk is simulated and fails on demand"),
P("C18", "Nothing is left behind when the last reference is gone",
  "After any history of creating, adapting, distributing, exchanging, reading and destroying, also when an operation fails, no memory, communicator, window, data type, request, message or open file that t8code created remains.",
  HIST + ["faults"], ANY + ", every mesh file and disk fault", WHY + "leaks that need an empty process, a broadcast or a failing read go unnoticed, and leaked communicators are not looked for.",
  [F + "t8_forest.cxx", F + "t8_forest_partition.cxx", F + "t8_forest_ghost.cxx", C + "t8_cmesh.cxx", C + "t8_cmesh_internal/t8_cmesh_stash.c", C + "t8_cmesh_internal/t8_cmesh_trees.cxx", "src/t8_data/t8_shmem.c", "src/t8_data/t8_containers.cxx"],
  [("forest", "t8_forest_unref"), ("coarse mesh", "t8_cmesh_unref"), ("shared arrays", "t8_shmem_array_destroy")],
  "oracle: libsc's allocation counters per package and the simulator's tables of live MPI objects and files"),
P("C19", "Every collective operation finishes on all processes under any legal timing",
  "Whatever the timing, the buffering of sends and the reduction order, every operation that all processes call returns on all of them: no deadlock or endless wait, no process in another collective call than the others, no message of unexpected length, no buffer changed or released while a message still uses it, no misuse of MPI.",
  HIST, ANY + ", sends that complete only when received, collective calls that synchronise or do not", WHY + "MPI libraries buffer small messages, so that cycles of waits and reused buffers never show.",
  [F + "t8_forest_partition.cxx", F + "t8_forest_ghost.cxx", F + "t8_forest_balance.cxx", C + "t8_cmesh_internal/t8_cmesh_partition.cxx", C + "t8_cmesh.cxx", "src/t8_data/t8_shmem.c"],
  [("leaf exchange", "t8_forest_partition_given"), ("ghost exchange", "t8_forest_ghost_exchange_data"), ("tree exchange", "t8_cmesh_partition_given"), ("uniform bounds", "t8_cmesh_uniform_bounds_for_irregular_refinement")],
  "oracle: the simulated MPI's progress, matching and buffer checks while the workloads of all other properties run"),
P("C17", "A shared array has the same, complete contents on every process",
  "After gathering equal or different amounts from all processes, computing prefix sums, copying, or writing between the start and the end of writing, every process reads from the shared array exactly what was gathered, summed, copied or written, at once and until the array is next written, for every type of shared memory and every arrangement of the processes on nodes. Comparing arrays and searching in a sorted array give the right answer.",
  ["schedules", "inputs", "configurations", "histories"], "every element type and amount (including none on some processes), every shared memory type, number of processes and arrangement on nodes, every timing of the processes",
  WHY + "with one node the communication between nodes never takes place, and data races between the writer and the readers depend on the schedule.",
  ["src/t8_data/t8_shmem.c"],
  [("gathering different amounts", "t8_shmem_array_allgatherv"), ("prefix sums", "t8_shmem_array_prefix"), ("writing", "t8_shmem_array_start_writing"), ("searching", "t8_shmem_array_binary_search")],
  "oracle: the same operation on plain vectors", "Assumes equally many consecutive ranks per node, as libsc requires; starting to write does not wait for readers, so the workload separates reads from later writes."),
P("C20", "Typed data arrives at the receiver exactly as it was sent",
  "A vector of user-defined items that is packed and unpacked, sent and received (from a given or from any source, with a given or any tag), or exchanged in a ring arrives complete, in order and unchanged, with its length and the status of the very message received, whatever the lengths (including no data at all), the previous contents of the receiver and the order in which messages arrive; the announced buffer size is what is used.",
  ["schedules", "inputs", "histories"], "every item type and length, every pattern of senders and receivers, every message timing and matching order",
  WHY + "messages from several sources never compete for a receive.",
  ["src/t8_data/t8_vector_handler.hxx", "src/t8_data/t8_data_handler.hxx"],
  [("packing", "t8_vector_handler::pack_vector_prefix"), ("receiving", "t8_vector_handler::recv"), ("exchanging", "t8_vector_handler::sendrecv")],
  "oracle: the vectors that were sent"),
P("C22", "Uniform refinement is divided equally, however the coarse mesh is stored",
  "For every coarse mesh, also with several tree classes and numbers of elements near the limit of the index type, and however it is distributed, rank r of P is told that it gets exactly the elements from floor(N r / P) to floor(N (r+1) / P) of the uniform refinement, and whether it shares its first tree; distributing the coarse mesh for that level gives each process exactly the trees of these elements; and the uniform forest has exactly these elements.",
  ["inputs", "configurations", "schedules", "histories"], "every coarse mesh, distribution (with shared trees and empty processes), level up to the maximum, number of processes and message timing",
  WHY + "most distributions, empty processes and element numbers beyond small powers of two are not sampled, and the exchange between processes always happens in the same order.",
  [C + "t8_cmesh.cxx", C + "t8_cmesh.hxx", C + "t8_cmesh_internal/t8_cmesh_partition.cxx", F + "t8_forest.cxx"],
  [("bounds by messages", "t8_cmesh_uniform_bounds_for_irregular_refinement"), ("bounds by formula", "t8_cmesh_uniform_bounds_equal_element_count"), ("distribution", "t8_cmesh_partition"), ("creation", "t8_forest_populate")],
  "oracle: 128-bit arithmetic over the list of trees"),
P("C16", "Graphical output that reports success is complete and correct",
  "A process for which writing a forest or a coarse mesh as VTK files reports success has written a complete, well-formed file that shows exactly its local elements (and, if asked for, its ghosts, marked as such): corner positions, cell types, tree, process, level and element numbers and the user's data; if the first process reports success, the meta file names the file of every process and announces the arrays they contain. A write fault at any point (no space, write error, failing open or close) makes the affected process report failure; it neither crashes, nor hangs the others, nor leaves files open. Without a fault, every process reports success.",
  ["inputs", "faults", "schedules", "histories", "configurations"], "every forest and coarse mesh, distribution, selection of arrays, and every disk fault at any point of any process's output",
  WHY + "the tests write forests once to a disk that never fails, and do not read back what was written.",
  ["src/t8_vtk/t8_vtk_write_ASCII.cxx", "src/t8_vtk/t8_vtk.c", "src/t8_vtk/t8_vtk_writer.cxx", F + "t8_forest.cxx"],
  [("forest output", "t8_forest_vtk_write_ASCII"), ("coarse mesh output", "t8_cmesh_vtk_write_file_ext"), ("meta file", "t8_write_pvtu")],
  "oracle: a strict XML reader compares every file on the simulated disk with the leaves the process reports and their corners evaluated on a one-process copy of the mesh"),
P("C21", "The mesh handle shows every process the mesh the forest holds",
  "After any sequence of adapt, partition, balance and ghost requests committed through the mesh handle, the handle holds the forest the forest interface would have produced, and shows on every process exactly its leaves, in order, followed by its ghosts: numbers, levels, ghost marks, geometry and face neighbours (cached or not) are those of the elements, ghosts belong to the processes that own them, and element data are there after an exchange for local elements and ghosts alike. The face list of a balanced mesh contains every face of every local element exactly once, with its type, all sides visible to the process, the large side first, and their owners.",
  HIST, ANY + ", every sequence of commits, with and without caches", WHY + "the tests look at one or two regular meshes and compare counts.",
  ["mesh_handle/mesh.hxx", "mesh_handle/element.hxx", "mesh_handle/competences/dg_competences.hxx", "mesh_handle/competences/cache_element_competences.hxx", "mesh_handle/internal/adapt.hxx"],
  [("mesh handle", "class mesh, commit"), ("elements and neighbours", "class element, get_face_neighbors"), ("unique faces", "fill_unique_face_vector")],
  "oracle: a forest driven directly with the same requests, and a sequential model of leaves, owners and face neighbours over all processes"),
P("C23", "Adaptation does exactly what the callback decides",
  "Adapting replaces each local leaf or complete local family by its children, its parent, itself or nothing, exactly as the callback decided, and changes nothing else. The callback is given the tree, class, index and elements of the leaf or family that is asked about. If the adaptation is recursive, new children are asked again until no one wants to be refined or the maximum level is reached, and families of leaves that are not just refined are coarsened as long as the callback wants it. In a mesh with holes, the remaining members of a family can be coarsened where the process sees that nothing else is left of it. Comparing the old with the new forest afterwards reports each of these replacements once, in order and with the right leaves, covering all old and new leaves of every process.",
  HIST, ANY + ", every pattern of refining, coarsening and removing", WHY + "the tests use uniform or regular refinement patterns on whole trees.",
  [F + "t8_forest_adapt.cxx", F + "t8_forest_iterate.cxx"],
  [("adaptation", "t8_forest_adapt"), ("relation of old and new leaves", "t8_forest_iterate_replace")],
  "oracle: model of the callback's decisions on each process's leaves"),
P("C24", "Every process computes the true shape and place of its leaves",
  "After any history of adapting, partitioning and copying, whichever process owns a leaf obtains its true geometry: corner coordinates, centroid, positions of points given in the leaf's coordinates, volume, diameter and, for each face, centroid, area and outward unit normal follow from the vertices of the leaf's tree; with a linear geometry they equal the exact values up to rounding, with a Lagrange geometry the polynomial through the tree's nodes, with others the values computed without partitioning; trees with different geometries may be asked in any order, and several points of a tree at once give the same as one by one where that is supported. The leaves of one shape and level of an affine tree have the same volume. A point well inside a leaf is reported inside that leaf, a point well outside is not. The bounding box of a process's coarse trees holds all its leaves and is tight for straight trees; a process without coarse trees reports that it has none.",
  HIST, ANY + ", every evaluation between and after the steps", WHY + "the tests evaluate geometry on a few uniform meshes, mostly on one process, never after the trees have moved.",
  [F + "t8_forest.cxx", "src/t8_geometry/t8_geometry_handler.cxx", "src/t8_geometry/t8_geometry_helpers.c", "src/t8_geometry/t8_geometry_implementations/t8_geometry_linear.cxx", "src/t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.cxx"],
  [("leaf geometry", "t8_forest_element_coordinate, t8_forest_element_volume, t8_forest_element_face_normal"), ("points in leaves", "t8_forest_element_points_inside"), ("tree data of moved trees", "t8_geometry_handler")],
  "oracle: independent interpolation of the tree's vertices in the unpartitioned mesh"),
P("C25", "The numbers of trees and leaves fit together on every process",
  "After any history, on every process: the local numbers of trees and leaves, their global numbers, the ids of ghost trees and the ids in the coarse mesh lead to each other and back; every local leaf id finds its leaf and tree, ids beyond the last leaf find nothing; trees that are neither local nor ghosts are reported as such, with or without a ghost layer; an element is reported as a leaf (or ghost) exactly if it is one; two forests compare equal exactly if the local trees hold the same leaves; gathering puts all leaves in order on the chosen process and none elsewhere; partitioning the coarse mesh along the forest changes no leaf and leaves every process with the coarse trees of its leaves.",
  HIST, ANY + ", every tree, any gathering process, with and without ghosts and coarse mesh partition", WHY + "the tests look at ids on uniform meshes where trees and processes line up.",
  [F + "t8_forest.cxx", F + "t8_forest_partition.cxx", F + "t8_forest_ghost.cxx"],
  [("tree and leaf ids", "t8_forest_get_local_id, t8_forest_get_local_or_ghost_id, t8_forest_ltreeid_to_cmesh_ltreeid, t8_forest_get_leaf_element"), ("gathering", "t8_forest_new_gather"), ("coarse mesh", "t8_forest_partition_cmesh"), ("comparison", "t8_forest_is_equal, t8_forest_element_is_leaf")],
  "oracle: enumeration of each process's trees and leaves"),

P("C26", "A committed forest stays what it is, whatever is made from it",
  "While anybody holds a reference, a committed forest keeps its leaves, trees, global numbers, ghost layer, coordinates and user data on every process, whatever other forests are derived from it (adapted, partitioned, balanced, copied, with or without ghosts), whatever else runs at the same time and in whatever order the forests are released; it can still exchange ghost data. Applying the same operation to the same forest again gives the same forest on every process, with or without profiling.",
  HIST, "every tree of derivations and every order of releases, " + ANY, WHY + "the tests derive one forest from another and drop the old one at once.",
  [F + "t8_forest.cxx", F + "t8_forest_balance.cxx", F + "t8_forest_partition.cxx", F + "t8_forest_adapt.cxx", F + "t8_forest_ghost.cxx"],
  [("derivation and references", "t8_forest_commit, t8_forest_ref, t8_forest_unref, t8_forest_copy_trees"), ("balance", "t8_forest_balance"), ("coarse mesh", "t8_forest_partition_cmesh")],
  "oracle: what each process saw when the forest was committed, and the same derivation done before"),
]
NA = {}
