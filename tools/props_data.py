HOOKS = {"guard": "none", "enable": "nothing to enable: the checks use the public API", "source_commits": []}
NOT_APPLICABLE = []
DIRECT = "explicit-state exhaustive enumeration of executions of the real code"

prop("C01", "A routing answer is a connected, cheapest path of the network",
 "For every network, every pair of nodes and every weighting (alphas) of the metrics, the Dijkstra returns a path iff the destination is reachable from the source. The path starts at the source, ends at the destination, its edges are consecutive edges of the network, and no other path has a smaller weighted sum of metrics; its reported cost-vector is the sum of its edges' metrics. A query with a negative alpha yields no path.",
 ["inputs", "configurations"],
 "all networks (parallel edges, self-loops, unreachable parts, isolated last nodes included), all node pairs, all nonnegative alpha-vectors over up to 5 metrics",
 "The tests route on one 8-node map with one metric at a time and hand-picked expected paths; optimality is a claim about all paths of all networks.",
 ["src/routing/dijkstra.rs", "src/routing/paths.rs", "src/network/graph/mod.rs"],
 [["bidirectional search with meeting nodes and termination", "src/routing/dijkstra.rs compute_best_path"], ["weighted costs", "src/helpers/mod.rs dot_product"], ["path costs", "src/routing/paths.rs calc_costs"]],
 ["Dijkstra::compute_best_path", "Path::iter", "Path::calc_costs"],
 DIRECT + ": all small networks x all queries, judged by Bellman-Ford",
 "Every digraph within the bounds (3 nodes dense, 4 nodes dense without loops, 5 nodes sparse, parallel bundles, several metrics) and every node pair is executed on the real router; beyond: families of structured networks.")

prop("C02", "Contraction hierarchies do not change the answers of routing",
 "On a network contracted in any node order, with its shortcuts and levels, the CH-Dijkstra and the plain Dijkstra find a path iff the uncontracted network has one, with the same optimal weighted cost. Flattening such a path yields consecutive real edges from the source to the destination, with the same costs. Without levels and shortcuts, both algorithms agree as well.",
 ["inputs", "configurations"],
 "all networks, all contraction orders, with and without witness search, all node pairs, all alphas for which the shortcuts are complete",
 "Tests compare two algorithms on one map; the claim is about every contraction order and level assignment.",
 ["src/routing/dijkstra.rs", "src/routing/paths.rs", "src/network/graph/building.rs"],
 [["level-filter on relaxed edges, adapted termination", "src/routing/dijkstra.rs compute_best_path"], ["unfolding of shortcuts", "src/routing/paths.rs try_flatten"]],
 ["Dijkstra::compute_best_path with RoutingAlgo::CHDijkstra", "Path::flatten"],
 DIRECT + ": all small networks x all contraction orders, judged by Bellman-Ford on the uncontracted network",
 "The contraction itself is done by the check (the repository uses an external constructor); every order of the nodes is explored.")

prop("C03", "A router's answer does not depend on what it has been asked before",
 "For every history of queries (different networks of different sizes, algorithms, weightings, reachable or not, rejected ones included), a router object that is used again returns a path of the same optimal cost as a router which is new, or none iff the new one finds none.",
 ["histories"],
 "all sequences of queries over several networks on one router",
 "Tests use a router for a handful of queries on one network and never change the network or the algorithm between them.",
 ["src/routing/dijkstra.rs"],
 [["re-initialisation per query", "src/routing/dijkstra.rs init_query"]],
 ["Dijkstra::compute_best_path"],
 "explicit-state exploration of all query histories up to a depth on the real router",
 "All sequences of length 2 and 3 over the whole query alphabet, longer ones over a sub-alphabet; every answer is compared with a new router's and with Bellman-Ford.")

prop("C04", "The built graph is exactly the inserted network",
 "For every sequence of inserted edges and nodes, the finalized graph contains every inserted edge (repetitions of an edge without differing parallel edges only once) with its endpoints, metrics and edge-id and no other edge, and each node touched by an edge with its id, coordinate and level. Lookups by node-id, edge-id, node pair and per-node iteration in both directions agree with that set; nodes without edges are dropped. A node without coordinates, a duplicated edge-id, a negative or NaN metric is refused, and a metric of 0 is stored as 1e-6.",
 ["inputs", "histories"],
 "all sequences of inserts, in every order, with duplicates, parallel edges, self-loops, any ids and levels",
 "The tests check hand-written maps inserted in one order.",
 ["src/network/graph/building.rs", "src/network/graph/mod.rs", "src/network/graph/indexing.rs"],
 [["sorting, deduplication, offset-arrays", "src/network/graph/building.rs finalize"], ["accessors", "src/network/graph/mod.rs NodeAccessor, EdgeAccessor"]],
 ["EdgeBuilder::insert", "GraphBuilder::finalize", "Graph::{nodes,fwd_edges,bwd_edges,metrics}"],
 "explicit-state exploration of all insert sequences up to a depth on the real builder, judged by a set model",
 "All insert sequences up to the depth; structured networks and networks beyond the builder's chunk size in addition.")

prop("C05", "Shortcuts keep referring to the edges they replace",
 "However edges and shortcuts are inserted, sorted and deduplicated, each shortcut of the finalized graph refers to exactly those edges it referred to in the input. Flattening a path replaces every shortcut, at any nesting, by the real edges it stands for, in order, and is an error (not an endless loop) iff the references are cyclic.",
 ["inputs", "histories"],
 "all assignments of shortcut-references among edges (cycles included), all insertion orders, all duplications, any nesting depth",
 "The tests have one contracted map, in the order in which its tool wrote it.",
 ["src/network/graph/building.rs", "src/routing/paths.rs"],
 [["re-mapping of shortcut-references after sorting", "src/network/graph/building.rs finalize"], ["unfolding with cycle detection", "src/routing/paths.rs try_flatten"]],
 ["EdgeAccessor::sc_edges", "Path::try_flatten"],
 DIRECT + ": all reference assignments and all insertion orders",
 "All reference structures among up to 4 (quick) or 5 edges and all 720 insertion orders of a nested hierarchy; deep nestings in addition.")

prop("C06", "A written network is read back as the same network",
 "For every network and every choice and order of the columns, writing the network as an fmi-file and reading the file with the same columns yields the same nodes (ids, coordinates, levels), edges, edge-ids, shortcuts and metrics, bit by bit. Leaving out shortcuts or denormalizing on writing yields the network without shortcuts, or with its original metrics.",
 ["inputs", "configurations"],
 "all networks, all column orders, all metric-values, coordinates and ids, contracted or not, normalized or not",
 "The tests write and re-read two maps in one layout.",
 ["src/io/writing/network/graph/fmi.rs", "src/io/writing/network/mod.rs", "src/io/parsing/network/graph/fmi.rs"],
 [["fmi-writer", "src/io/writing/network/graph/fmi.rs write"], ["edge columns", "src/io/writing/network/mod.rs write_edges_to_file"], ["fmi-parser", "src/io/parsing/network/graph/fmi.rs"]],
 ["io::network::graph::Writer::write", "io::network::graph::Parser::parse_and_finalize"],
 DIRECT + ": all small networks x all column layouts through the file system, compared by a set model",
 "Every network and layout within the bounds is written by the real writer and read by the real parser.")

prop("C07", "A writer that reports success has written everything, and overwrites nothing",
 "Whatever byte the disk fails at, each writer (network, edges-info, route-pairs, SMARTS-vehicles, values per edge) returns an error unless all bytes are in the file. No writer alters or replaces a file which is already there: it returns an error and leaves it untouched, as do the advance checks made before long computations.",
 ["fault_sequences", "configurations"],
 "all bytes behind which the disk fails, all writers, all kinds of existing targets",
 "The tests write to an undisturbed disk.",
 ["src/io/writing/network/graph/fmi.rs", "src/io/writing/network/edges.rs", "src/io/writing/routing/random_or_all.rs", "src/io/writing/smarts.rs", "src/io/writing/evaluating_balance.rs"],
 [["open with create_new, flush before success", "src/io/writing/"], ["advance checks", "src/io/writing/network/edges.rs check, src/io/writing/evaluating_balance.rs check"]],
 ["return value of each Writer", "content of the files"],
 "exhaustive fault-point enumeration on the real writers (file-size limit behind every byte)",
 "Each writer is executed once per byte of its output, with the write behind this byte failing.",
 level="fault_enumeration")

prop("C11", "Route-pairs: what is written is routable, what is read is what the file says",
 "If all pairs of nodes are asked for, the route-pairs-file contains exactly the pairs for which a path exists, with the algorithm chosen, contracted or not; with a maximum below, a subset of them without repetition, not more than the maximum (the maximum itself, if only few of many routable pairs are asked for), and the same file for the same seed. Reading a route-pairs-file yields exactly the pairs and their multiplicities in the file's order, comments and empty lines ignored, and is an error (or a refusal) if a line is malformed or fewer lines are there than declared.",
 ["inputs", "configurations"],
 "all networks, maxima and seeds; all damages of a file: every byte, every cut, every value",
 "The tests write routes of one map and read them back.",
 ["src/io/writing/routing/random_or_all.rs", "src/io/parsing/routing/routes.rs", "src/network/routes.rs"],
 [["enumeration and random choice of pairs", "src/io/writing/routing/random_or_all.rs write"], ["route-pairs parser", "src/io/parsing/routing/routes.rs"]],
 ["io::routing::Writer::write", "io::routing::Parser::parse"],
 DIRECT + ": all small networks, all damages of small files, judged by reachability and an independent reader",
 "All networks on 3 nodes; every byte of a file replaced by every byte.")

prop("C16", "Reading a network-file yields what the file says, or a rejection",
 "For every content of an fmi-file and every column layout, the parser either yields exactly the network which the file describes (comments and empty lines ignored, columns in the configured order, superfluous columns and surplus lines behind the declared counts ignored) or refuses the file. A value which is no number of the expected kind, a missing column, fewer lines than declared, or a layout without ids, coordinates or endpoints is refused.",
 ["inputs", "configurations"],
 "all damages of small files: every byte, every value, every line, every cut, every count; all column layouts",
 "The tests read a few correct files.",
 ["src/io/parsing/network/graph/fmi.rs", "src/io/parsing/network/graph/mod.rs", "src/configs/parsing"],
 [["count-lines and line-ranges", "src/io/parsing/network/graph/fmi.rs preprocess"], ["value parsing per column", "src/io/parsing/network/graph/fmi.rs try_from_str, from_str"]],
 ["io::network::graph::Parser::parse_and_finalize"],
 DIRECT + ": all single and paired damages of small files, judged by an independent reader",
 "Every byte, value, line and cut of three small files; all layouts of 3 node- and 4 edge-columns.")

prop("C17", "The edges-info export says what the graph says, and merging brings it back",
 "For every network and every list of columns, the exported edges-info-file has the header of these columns and one row per edge (shortcuts only if asked for) with exactly the values of this edge: edge-id, source- and destination-id, -index, -latitude and -longitude, metrics, normalized or denormalized as asked for. External values per edge are written next to the id of their edge. Merging such a file into a network of the same edges adds its metrics to exactly the edges of these ids, and refuses unknown edge-ids and malformed values.",
 ["inputs", "configurations"],
 "all networks, all column lists, all row orders and row subsets, all malformed rows",
 "One test exports one map; none merges in other orders or with missing rows.",
 ["src/io/writing/network/edges.rs", "src/io/writing/network/mod.rs", "src/io/parsing/network/edges.rs", "src/network/graph/building.rs"],
 [["row writer", "src/io/writing/network/mod.rs write_edges_to_file"], ["merging of edges from file", "src/network/graph/building.rs finalize"]],
 ["io::network::edges::Writer::{write,write_external_values}", "generating: merge-edges-from"],
 DIRECT + ": all small networks x all column lists, read back by an independent reader",
 "All column lists up to length 3 and all networks on 3 nodes; all row orders and subsets for merging.")

prop("C18", "The vehicles exported for SMARTS drive exactly the chosen paths",
 "For every list of paths, the exported XML is well-formed and has exactly one vehicle per path, in the given order, repetitions included. A vehicle is named by the ids of its path's source and destination, and its nodes are exactly the ids of the nodes along the path, in order.",
 ["inputs"],
 "all lists of walks in all networks (cycles, self-loops, repeated and empty paths included)",
 "No test covers this writer.",
 ["src/io/writing/smarts.rs"],
 [["XML writer", "src/io/writing/smarts.rs write"]],
 ["io::smarts::Writer::write"],
 DIRECT + ": all walks and all lists of walks, read back by an independent reader",
 "All walks up to a length in all digraphs on 3 nodes; all lists of up to 3 paths.")

prop("C08", "Generated metrics are exactly what the config asks for",
 "For every sequence of generating steps (custom, haversine, copy, convert, calc, meta), each edge of the finalized graph has the given metrics, in the order of their creation, with the ids and units asked for and the values that the steps prescribe: defaults, great-circle distances, converted units, time = distance / speed, generated edge-ids. A step that would use an unknown source, an id that is already in use, units of different dimensions or an unsupported calculation is refused.",
 ["configurations", "inputs", "histories"],
 "all sequences of generating steps, all pairs and triples of units, all coordinates",
 "The tests use two conversions and one calculation of two maps.",
 ["src/network/graph/building.rs", "src/configs/parsing/generating", "src/configs/parsing/edges/metrics.rs"],
 [["generating steps", "src/network/graph/building.rs finalize"], ["unit conversion and calculation", "src/configs/parsing/generating/edges/metrics.rs try_convert, try_calc"]],
 ["GraphBuilder::finalize", "Graph::metrics", "Graph::cfg"],
 "explicit-state exploration of all sequences of generating steps up to a depth, judged by a reference interpreter",
 "All sequences of up to 3 (quick) or 4 steps over an alphabet of 35 proper and improper steps; complete tables of units.")

prop("C09", "Normalized metrics are the metrics divided by their mean",
 "If normalization is asked for, every metric (generated ones included) of every edge of the finalized graph is its value divided by the mean over all distinct edges, values around zero becoming 1e-6, and the graph reports this mean. If it is not asked for, metrics stay as they are and no mean is reported. A network without edges or with a metric whose mean is zero is refused.",
 ["inputs", "configurations"],
 "all networks, all metric values, 1 to 5 metrics, with duplicates, shortcuts and generated metrics",
 "No test normalizes.",
 ["src/network/graph/building.rs", "src/network/graph/mod.rs"],
 [["normalization", "src/network/graph/building.rs finalize"], ["means", "src/network/graph/mod.rs MetricAccessor::mean"]],
 ["GraphBuilder::finalize", "Graph::metrics().mean", "Graph::metrics"],
 DIRECT + ": all small networks x options, judged by recomputed means",
 "All digraphs on 3 nodes over 3 metric vectors, all insert sequences with repetitions, all value pairs of a range over many magnitudes.")

prop("C10", "Importing OpenStreetMap-data yields exactly its usable streets",
 "For every pbf-file, vehicle (car, bicycle, pedestrian) and pickiness of drivers, each way of at least two nodes whose highway-value denotes a street usable by them contributes an edge for each pair of consecutive nodes, along, against or in both directions as its oneway-tag (or its category) says, with its maxspeed (whole numbers in km/h and the known words, at least 5, else the default of its category and vehicle) and the lane-count of its category as asked for by the columns. Other ways and nodes without street contribute nothing; coordinates are those of the file; the layout of blocks (order of ways, compression, dense nodes, granularity, number of blocks) does not matter. A street referring to a missing node, a column which the format does not provide, and a file with broken or cut blocks are refused.",
 ["inputs", "configurations", "faults"],
 "all known and unknown highway-, maxspeed- and oneway-values, all vehicles, all small ways, all column lists, all block layouts, every cut and changed byte of a file",
 "The test-suite parses one given pbf-file and looks at a few counts.",
 ["src/io/parsing/network/graph/pbf.rs", "src/defaults.rs", "src/network/mod.rs", "src/configs/parsing"],
 [["import of ways and nodes", "src/io/parsing/network/graph/pbf.rs"], ["street-categories, speeds, lanes, directions", "src/network/mod.rs StreetCategory; src/defaults.rs network"]],
 ["io::network::graph::Parser::parse_and_finalize"],
 DIRECT + ": all tag-values, ways, layouts, cuts and byte-changes of files, judged by pinned tables and an independent writer",
 "Files are written block by block by the check itself. Damaged files are judged by reading them sequentially with the osmpbfreader-library.")

prop("C12", "Balancing sums up all routes, whatever threads and schedules do",
 "For every list of route-pairs, every number of worker-threads and every interleaving of the master and its workers, working off the routes ends, drives every route exactly as often as its count says (0 included), and the resulting workload of each edge is the number of driven paths through it after flattening. Collected chosen paths are exactly one (flattened) path per driven route, from its source to its destination, and are among the paths which the configured algorithm finds; nothing is collected if not asked for. Routes without a path are skipped. Afterwards, no worker holds the graph anymore. A failing or missing worker is reported as error and never loses routes silently.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of master and workers (channel operations), 0 to 4 workers, all lists of routes of several chunks, counts from 0, unroutable and improper routes, all four routing algorithms",
 "No test runs the balancer; schedules of threads cannot be chosen by a test.",
 ["src/bin/osmgraphing/balancing/multithreading.rs"],
 [["distribution of chunks with adapted work-size", "src/bin/osmgraphing/balancing/multithreading.rs Master::work_off"], ["worker loop", "src/bin/osmgraphing/balancing/multithreading.rs Worker"]],
 ["Master::spawn_some", "Master::work_off"],
 "stateless model checking of the real balancer under a controlled scheduler (dynamic partial-order reduction with sleep sets over all interleavings)",
 "The balancer's source is compiled against a stand-in of std whose threads, channels, locks and atomics are scheduled by the explorer; every schedule up to equivalence is run for each case. One family explores without reduction to validate the reduction.")

prop("C13", "A balancing update computes the new metric from the workloads",
 "For every graph, all workloads and all updates, each edge's balanced metric becomes what the optimization-method prescribes from its normalized old value and its workload relative to the mean workload (explicit-euler: old + (new - old) * correction; averaging: the running mean over the iterations), bounded below by the configured minimum, normalized again, with the graph's mean updated if it has means. Without a minimum, a new value of zero is refused (unless this is switched off). All other metrics, the edges and nodes stay as they are; a refused update leaves everything as it was.",
 ["inputs", "histories", "configurations"],
 "all workload-vectors, all metric values, both optimization-methods, all iteration-numbers, several updates in a row",
 "No test updates a metric.",
 ["src/defaults.rs", "src/configs/balancing", "src/network/graph/mod.rs"],
 [["update", "src/defaults.rs balancing::update_new_metric"]],
 ["defaults::balancing::update_new_metric", "Graph::metrics"],
 "explicit-state exploration of all update sequences up to a depth on the real code, judged by a reference computation",
 "All workloads of a small range on all edges, all optimization-methods and minimums, sequences of updates.")

prop("C14", "Explored alternative routes are real, tolerated, optimal and distinct",
 "Every path which the explorator returns is a path of the network from the source to the destination with the reported costs; it is a cheapest one for some nonnegative weighting of the considered metrics (alpha > 0), costs in each considered metric at most the tolerated scale times the best possible, and is returned only once. With unlimited tolerance, a cheapest path of every 0/1-combination of considered metrics is found, and, for two considered metrics and at least three different found costs, every corner of the lower-left convex hull of all path-costs. Nothing is returned iff there is no (tolerated) path. Using an explorator repeatedly does not change its answers, and the underlying algorithm (Dijkstra, CH-Dijkstra) does not either.",
 ["inputs", "configurations", "histories"],
 "all sets of path-costs of a grid in 2 and 3 metrics, all tolerances, both algorithms, repeated use",
 "The tests explorate a few small maps with hand-written expected paths.",
 ["src/routing/explorating.rs"],
 [["exploration along facets of the convex hull", "src/routing/explorating.rs fully_explorate"], ["tolerances of the initial paths", "src/routing/explorating.rs explore_initial_paths, update"]],
 ["ConvexHullExplorator::fully_explorate"],
 DIRECT + ": all small sets of path-costs, judged by enumerating all paths",
 "The triangulation-library of the feature gpl (CGAL) is not installed here: a stand-in computes convex hulls in up to 3 dimensions.")

prop("C15", "Config-files mean what the blueprint says",
 "For every yaml-file and each kind of config (parsing incl. generating, routing, writing of graph, edges and route-pairs, balancing, evaluating balance, multi-ch-constructor), the config read is exactly the one written: columns, units, ids and steps in their order, options as given, and the documented default for each option left out (car, picky, not normalized, no shortcuts, not denormalized, alpha 1 and unlimited tolerance for a listed metric, alpha 0 for others, seed 42, 4 threads, custom-values 0, header-line expected, ...). Order of keys, style and other sections do not matter. Missing required keys, misspelled keys of a section, unknown words, values of a wrong kind, unknown metrics, duplicate edge-ids, unsupported file-extensions and missing files are refused. Reading from a file and from a text agree.",
 ["inputs", "configurations"],
 "all yaml-files",
 "The tests read a dozen hand-written configs, all valid.",
 ["src/configs", "src/multi_ch_constructor/configs.rs", "src/defaults.rs", "src/io/mod.rs"],
 [["reading raw configs and filling in defaults", "src/configs"], ["ids to indices", "src/configs/routing.rs try_from_proto; src/configs/parsing/edges"], ["file-extensions", "src/io/mod.rs SupportingFileExts"]],
 ["configs::*::Config::try_from_yaml", "try_from_str"],
 DIRECT + ": all single edits and pairs of edits of configs, all lists of columns and metrics, all cuts, judged by a reference interpreter",
 "The oracle interprets the generic yaml-tree by the blueprint's description. Where yaml or the blueprint leaves it open (lists in place of mappings, numbers in place of texts, surplus keys inside of list-entries), any answer is accepted.")

prop("C19", "Approximate comparisons are consistent, linear algebra is right",
 "Approximate values at most 1e-6 apart are equal, those at least 2e-6 apart compare as usual, and all comparison operators (on values, references, optional values, in both directions) agree with each other. Vectors are equal (at most, at least, less, greater) iff all components are; coordinates are equal iff both components are. A solved linear system fulfils its equations, and only singular systems have no solution; entries of a matrix are found by row and column; sums, differences and products of vectors are componentwise.",
 ["inputs"],
 "all values and vectors around the tolerance, all small linear systems and shapes of matrices",
 "Two tests compare a few values.",
 ["src/approximating.rs", "src/helpers/mod.rs", "src/helpers/algebra.rs"],
 [["comparison", "src/approximating.rs Approx"], ["linear systems", "src/helpers/algebra.rs"]],
 ["Approx", "helpers::algebra::Matrix", "helpers::{add, sub, dot_product, le}"],
 DIRECT + ": all pairs of values and vectors of a grid, all small integer systems, judged by definitions",
 "Between 1e-6 and 2e-6, only consistency is checked; vectors of different lengths and NaN are left open.")

prop("C20", "The program does each requested step, or stops at the first that fails",
 "A call of the program osmgraphing reads the config's graph and then does the requested steps, and only these, in the order graph, edges, route-pairs, routing or evaluation. Each writes to its configured file what the library's writer makes of graph and config; routing tells costs of a best path for every route-pair, or that there is none; evaluation writes edges, absolute workloads and, if asked for, vehicles. An existing file is never changed. The exit-status is success iff all steps are done; the first failing step leaves the files of later ones untouched. Wrong arguments, unusable configs or maps, and features which are not built in are refused before anything is written. Levels for logging by argument and environment are respected.",
 ["inputs", "histories"],
 "all combinations of steps, existing files, given sections, arguments and log-levels, all small maps",
 "No test runs the program.",
 ["src/bin/osmgraphing/mod.rs", "src/io/writing/evaluating_balance.rs", "src/io/writing/smarts.rs", "src/helpers/mod.rs"],
 [["steps", "src/bin/osmgraphing/mod.rs run"], ["arguments", "src/bin/osmgraphing/mod.rs parse_cmdline"], ["evaluation", "src/bin/osmgraphing/mod.rs do_evaluating_routing"]],
 ["the programs osmgraphing (with and without gpl)"],
 "explicit enumeration of step-histories; every history is replayed on the real program in a scratch directory and the whole directory compared with the model's state",
 "The wording of messages is not judged, except that costs follow 'Path costs' and missing paths are told by 'No path'.")
prop("C21", "The balancing pipeline of iterations around the external contraction tool",
 "With --balancing, the program writes one dated results-directory with copies of config and route-pairs, and for each iteration 0..n the config used, the network handed to the tool (indices, metrics, in iteration i > 0 the metric to optimise, no other edges than the map's), the columns put aside, and, after cmake has configured for the number of metrics and built and the tool has contracted, statistics: workloads which best paths of the contracted network make for the route-pairs, vehicles which agree with them, and the metric updated by the configured method, normalised by its mean. This metric enters the next iteration, where the columns put aside come back by edge-id; the balanced network is the map with the last metric. The success is reported iff all iterations are done; a failing call, an unusable answer, an unusable config, or an update that may not be (zeros, no workload) stops the pipeline with an error at this iteration. The program multi-ch-constructor calls the tool with exactly the configured values. Inputs are never changed.",
 ["inputs", "histories", "crash points"],
 "all small maps, methods, minima, algorithms, numbers of threads and updates; every point at which the external tool fails",
 "No test runs the balancing pipeline or the external tool.",
 ["src/bin/osmgraphing/balancing/mod.rs", "src/bin/osmgraphing/balancing/multithreading.rs", "src/bin/osmgraphing/mod.rs", "src/defaults.rs", "src/multi_ch_constructor/mod.rs", "src/multi_ch_constructor/configs.rs", "src/bin/multi-ch-constructor.rs", "src/configs/balancing.rs"],
 [["iterations", "src/bin/osmgraphing/balancing/mod.rs run"], ["statistics and updates", "src/bin/osmgraphing/balancing/mod.rs simulation_pipeline::balance"], ["tool", "src/multi_ch_constructor/mod.rs build, construct_ch_graph"]],
 ["the programs osmgraphing (gpl) and multi-ch-constructor"],
 "explicit enumeration of pipelines with a fault injected at each call of the external tools; each is replayed on the real program in a scratch directory with stand-ins for cmake and multi-ch, and all files are compared with the model's",
 "multi-ch and cmake are not installed; stand-ins keep to their documented interface. Workloads are judged to be possible ones where best paths are not unique. Updates within 1e-5 of a threshold are not judged.")

prop("C22", "The visualizer shows the balancing's measured workloads",
 "Given a results-directory of the balancer, with iterations 0..n and rows and columns in any order, the visualizer saves for each iteration the figures workloads, workload-quantiles, workloads_hist, lane-count_to_workload and (from the second iteration on) delta_workloads, delta_workloads-quantiles, and sorted_workloads, workload-boxplots, max_workloads, num_unique_edges over all iterations. On the maps, each edge is shown once, at the middle of its ends, with its workload (difference to the iteration before), the important ones on top; colours are within the colour-map, increase with the value, the maximum of all iterations is the brightest, and in maps of differences, no difference is the center. The logged scale is as documented. Histograms and boxes show exactly the used edges' workloads, per iteration or lane-count. Iterations with no, equal or one-sided workloads are shown as well. Files which are missing, unreadable, or of other edges than the first iteration's are refused. Inputs are never changed.",
 ["inputs", "histories"],
 "all results-directories",
 "No test runs the visualizer.",
 ["scripts/balancing/visualizer/__main__.py", "scripts/balancing/visualizer/visualizing/__init__.py", "scripts/balancing/visualizer/visualizing/model.py", "scripts/balancing/visualizer/visualizing/plotting.py", "scripts/balancing/visualizer/visualizing/helpers.py", "scripts/balancing/visualizer/visualizing/simulating.py"],
 [["reading results", "scripts/balancing/visualizer/visualizing/model.py Data"], ["figures", "scripts/balancing/visualizer/visualizing/plotting.py Machine"], ["logged scale", "scripts/balancing/visualizer/visualizing/helpers.py TwoSlopeLoggedNorm"]],
 ["scripts/balancing/visualizer --results-dir DIR --style STYLE"],
 "explicit enumeration of histories of workloads (and of orders of rows, columns, defects); each is given to the real visualizer, whose drawing calls are recorded and compared with the model's figures",
 "matplotlib is not installed; a stand-in records the drawing calls, with norms and histograms as in matplotlib. Looks (fonts, sizes, colour-maps) are not judged.")

prop("C23", "The documented workflow from an OSM map to evaluated balanced routes",
 "With the configs shipped for the README's example (isle of man) and any map in place of graph.osm.pbf, each documented step succeeds and fits to the next one: pbf-file to fmi-map (the streets open for cars, with kilometers, hours and lanes), fmi-map to the contraction tool's input (indices, the same edge-ids), contraction, route-pairs (all pairs which have a path, once), routing on the pbf-map and on the contracted map (costs of best paths), balancing for three iterations (statistics, updated metric and balanced map), and the four evaluations of the balanced map, with Dijkstra and with the explorator, with and without the new metric: workloads are routes of exactly the requested pairs, best ones, or tolerated ones. In any order of the steps, a step succeeds iff the files it needs are there and the file it makes is not, and it changes no other file.",
 ["inputs", "histories"],
 "all maps, all sequences of steps",
 "Tests read the shipped maps; none follows the workflow, and none has a map of its own.",
 ["resources/isle_of_man_2020-03-14", "src/bin/osmgraphing/mod.rs", "src/bin/osmgraphing/balancing/mod.rs", "src/bin/multi-ch-constructor.rs", "src/io", "src/network/mod.rs", "src/configs"],
 [["programs", "src/bin/osmgraphing/mod.rs run"], ["import", "src/io/parsing/network/graph/pbf.rs Parser"], ["route-pairs", "src/io/writing/routing/random_or_all.rs Writer::write"]],
 ["osmgraphing --config resources/isle_of_man_2020-03-14/... with --writing_graph, --writing_route-pairs, --routing, --balancing, --evaluating_balance; multi-ch-constructor"],
 "explicit enumeration of maps and of sequences of steps; each is replayed on the real programs in a scratch directory, and all files and told costs are compared with the model's",
 "The contraction tool is a stand-in (C21). Which tolerated path the explorator takes is not judged here (C14), only that workloads are a flow of the pairs within the tolerated hours.")

prop("C24", "The number of inlined metrics decides what is accepted and nothing else",
 "A program built for k inlined metrics (GRAPH_DIM=k) accepts a config iff the metrics it reads and generates (copied, calculated, custom and haversine ones are new; converted and merged ones replace others; metas are none) are at most k. Otherwise it reports failure and writes nothing, whatever steps are requested. If it accepts, then all written files and all told or counted routes, by Dijkstra or by exploring alternatives, are those which every other accepting build makes of it, and the config means the same; if the config has fewer metrics than k, it is warned, and only then.",
 ["inputs", "configs"],
 "all numbers of inlined metrics, all configs",
 "Tests run with one number of inlined metrics only.",
 ["build.rs", "src/defaults.rs", "src/io/parsing/network/graph/mod.rs", "src/network/graph/building.rs", "src/routing/explorating.rs"],
 [["capacity", "src/io/parsing/network/graph/mod.rs check_config"], ["generating", "src/network/graph/building.rs GraphBuilder::finalize"]],
 ["osmgraphing --config with --writing_graph, --writing_edges, --writing_route-pairs, --routing, --evaluating_balance"],
 "explicit enumeration of configs (read metrics x lists of generating steps) x requested steps x programs built for 1 to 6 metrics; all runs are compared with a model of the config and with each other",
 "Builds for more than 6 metrics are not made.")

prop("C25", "A failing file system never passes as success, and harms nothing",
 "Whichever call to the file system of a run fails (opening, looking at, creating, reading, copying or writing a file or directory, once or, if the disk is full, from there on), the program either reports failure, or all its files, told routes and calls of the contraction tool are those of an undisturbed run. Reads and writes which transfer less than asked for, or are interrupted by a signal, make no difference at all. If the program is killed at any of these calls, the next run reports failure or ends up with everything an undisturbed run writes. In each of these cases, files which have been there before (inputs, or files in the place of targets) stay as they are, and only targets appear.",
 ["inputs", "faults", "crashes"],
 "every call to the file system of a run, every fault of it, every two of them",
 "No test lets a call to the file system fail.",
 ["src/io", "src/configs", "src/bin/osmgraphing/mod.rs", "src/bin/osmgraphing/balancing/mod.rs", "src/bin/multi-ch-constructor.rs", "src/multi_ch_constructor/mod.rs"],
 [["reading", "src/io/parsing/network/graph/fmi.rs, pbf.rs, src/io/parsing/network/edges.rs, src/io/parsing/routing/routes.rs"], ["writing", "src/io/writing"], ["directories and copies", "src/bin/osmgraphing/balancing/mod.rs run"]],
 ["the programs osmgraphing (plain, gpl) with --writing_..., --routing, --evaluating_balance, --balancing, and multi-ch-constructor"],
 "exhaustive fault injection: the calls to the file system of 13 jobs are listed by a preloaded library, then the real program runs once per call and fault (and per pair of calls), and its result is compared with the undisturbed run's",
 "Calls which libc makes on its own behalf and closing of files do not fail. The contraction tool is a stand-in (C21), its own calls do not fail.")
