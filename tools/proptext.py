IN, CF, FA, HI, SC = 'inputs', 'configurations', 'fault_sequences', 'histories', 'schedules'


def define(prop):
    prop('P01', 'Writing never modifies or replaces an existing file',
         'Whatever is written (a graph, edges, external edge values, route-pairs, smart-route nodes), the output file is created anew at exactly the configured path; if a file already exists there, the operation fails and the existing file keeps its content. The executables copy files only into the results directory they were configured with and never delete or rename anything.',
         [IN, CF, HI], 'for every configuration, graph and prior content of the file system',
         'tests write to a handful of fresh temporary paths; none starts with an existing output, and a test cannot cover every open call of every executable',
         ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/writing/smarts.rs', 'src/bin/osmgraphing/balancing/mod.rs'],
         [('OpenOptions::create_new', 'every writer'), ('fs::copy into results_dir', 'bin balancing')])
    prop('P02', 'A writer reports success only if everything reached the file',
         'When writing a graph, edges, external edge values, route-pairs or smart-route nodes returns success, every single write and the final flush of the buffered output have succeeded. Any failing open, write or flush makes the writer return an error.',
         [FA, IN], 'for every position at which an I/O operation fails',
         'the tests never make a write fail; the failing position is a run-time quantity (full disk, quota) that can hit any of some fifty write calls',
         ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/mod.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/writing/smarts.rs'],
         [('? on every write', 'src/io/writing'), ('flush before returning Ok', 'src/io/writing')])
    prop('P03', 'Edge columns of written files hold the configured datum of the row\'s edge',
         'For every configured column, an edge row contains exactly the datum whose id names the column: edge id, source or destination id, index, latitude or longitude, the two replaced edges of a shortcut (-1 for a plain edge), or the metric with that id (multiplied by the metric\'s mean iff denormalising and means exist), in the configured column order, separated by single spaces, "_" for ignored columns. An id that the graph does not have is an error. There is one row per edge in edge order, shortcuts being left out iff they are not to be written.',
         [IN, CF], 'for every graph, column list and option combination',
         'tests compare a few columns of small fixed maps; column kinds times options times edges is unbounded and most column kinds are never written in any test',
         ['src/io/writing/network/mod.rs', 'src/io/writing/network/edges.rs', 'src/network/graph/mod.rs'],
         [('write_edges_to_file', 'src/io/writing/network/mod.rs'), ('EdgeAccessor/HalfEdge accessors', 'src/network/graph/mod.rs')])
    prop('P04', 'A written graph file announces and contains exactly its nodes and edges',
         'The three numbers in the header of a written graph are the number of metric columns per edge row, the number of nodes and the number of edge rows that follow. Every node of the graph gets one row; each node row holds, per configured column, the node\'s id, index, contraction level, latitude or longitude of that very node ("_" if ignored), in configured order; ids the graph does not know are errors. The edge rows obey the same column contract as separately written edges, with the options of the graph\'s own writing configuration.',
         [IN, CF], 'for every graph and writing configuration',
         'tests round-trip a few maps with two fixed column layouts; counts and columns must agree for every mixture of shortcuts, ignored columns and metrics',
         ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/mod.rs', 'src/configs/writing/network/edges.rs'],
         [('fmi::Writer::write', 'src/io/writing/network/graph/fmi.rs')])
    prop('P05', 'Map rows are read column by column into the right parts of nodes and edges',
         'Empty lines and lines starting with # are skipped, every other line counts. Reading a map in fmi-format takes every part of a node or edge (ids, coordinates, level, metrics in configured order, replaced edges of shortcuts) from the column that the configuration assigns to it, and from nothing else. A row with missing, unreadable or unsupported columns, with only one of the two replaced edges of a shortcut, or without a mandatory part is an error, never a panic and never a silently different graph. The node rows are the announced number of rows after the counts, the edge rows the announced number after them; a file with fewer rows than announced is an error. Every row that is read becomes part of the graph that is built.',
         [IN, CF], 'for every map text and column configuration',
         'tests parse a few well-formed maps with two column layouts; the malformed texts and the column orders are unbounded',
         ['src/io/parsing/network/graph/fmi.rs', 'src/configs/parsing'],
         [('ProtoShortcut::try_from_str / ProtoNode::from_str', 'src/io/parsing/network/graph/fmi.rs'), ('fmi::Parser::preprocess', 'src/io/parsing/network/graph/fmi.rs')])
    prop('P06', 'No failure while reading or building is silently ignored',
         'When parsing a configuration, a map (fmi or pbf), route-pairs or external edge values, or when building the graph, any failing step (opening, reading, decoding, parsing, looking up an id, adding a value) makes the whole operation fail. A failed item of a stream is never skipped, so a damaged input is never accepted as a smaller one.',
         [IN, FA], 'for every input and every step that can fail',
         'the failing step depends on the bytes of the input and on I/O faults; tests only read intact files',
         ['src/io/parsing', 'src/network/graph/building', 'src/configs'],
         [('? on every fallible call', 'src/io/parsing'), ('GraphBuilder/EdgeBuilder', 'src/network/graph/building')])
    prop('P07', 'The executables do every requested task and fail if one of them fails',
         'Each command-line flag triggers exactly its own task, whatever other flags are given, (writing the graph, edges or route-pairs, routing, balancing, evaluating) with the configuration file of the command line. A run that ends successfully has done all requested tasks successfully; if parsing or any task fails, the process ends with a failure status.',
         [CF, FA], 'for every combination of flags, configuration and failing step',
         'no test runs the executables; the combinations of flags and failing steps are not sampled at all',
         ['src/bin/osmgraphing/mod.rs', 'src/bin/osmgraphing/balancing/mod.rs', 'src/bin/multi-ch-constructor.rs', 'src/multi_ch_constructor/mod.rs'],
         [('main and run', 'src/bin'), ('CmdlineArgs::try_from', 'src/bin/osmgraphing/mod.rs')])
    prop('P08', 'Converting a metric between units keeps the physical quantity',
         'Converting a value between two units of the same physical dimension (length, time or speed) multiplies it by exactly the factor between these units, whichever pair of units it is; a value is never relabelled. Between units of different dimensions the conversion is an error, except that dimensionless raw numbers take any unit unchanged.',
         [IN, CF], 'for every pair of units and every value',
         'tests convert a handful of metrics on tiny maps; nine units make 81 pairs in each of two tables, most of which no test touches',
         ['src/configs/parsing/edges/metrics.rs', 'src/configs/parsing/generating/edges/metrics.rs'],
         [('UnitInfo::try_convert / convert', 'src/configs/parsing')])
    prop('P09', 'A metric calculated from two others is their physically correct combination',
         'Where the generated metric is calculated from two others (for instance a duration from length and speed), the result equals, in the requested unit, the product or quotient of the two given quantities that has the requested dimension, with the exact factor between the units. Combinations whose dimensions do not fit are errors and never produce a number. At least duration out of kilometers and km/h, and speed out of kilometers and hours, can be calculated.',
         [IN, CF], 'for every triple of units and every pair of values',
         'tests calculate one combination (duration out of length and speed); the triples of units are 512 and values are unbounded',
         ['src/configs/parsing/generating/edges/metrics.rs'],
         [('UnitInfo::try_calc', 'src/configs/parsing/generating/edges/metrics.rs')])
    prop('P10', 'Every option of a configuration-file reaches the setting it names',
         'Each documented key of a configuration-file sets the option of this name; a misspelled or unknown key inside a section is an error and is not silently ignored, while further sections in the same file are allowed. On its way through the stages of a configuration (raw, proto, final), each option arrives unchanged at the setting of its name: values are not swapped (from/to, a/b, unit/id, weights of metrics), enumerated values stay the same value, lists keep all their elements, and an absent option gets its documented default, never a present one. Weights and tolerances of a routing-configuration belong to the metric with the id of their entry; metrics that are not mentioned have weight zero.',
         [IN], 'for every configuration-file, i.e. every combination of options',
         'options interact freely and most of them occur in no test; a swapped or dropped option of a rare category is only visible with that category',
         ['src/configs', 'src/multi_ch_constructor/configs.rs', 'resources/blueprint.yaml', 'src/defaults.rs'],
         [('conversions between stages of configurations', 'src/configs'), ('derived deserialisers', 'src/configs'), ('routing::Config::try_from_proto', 'src/configs/routing.rs')])
    prop('P11', 'Street types decide access, speed, lanes and direction as documented',
         'For every street type, access per vehicle category (always, only for drivers who are not picky, never), default speed limit and default number of lanes are those of the documented table of street types (where Service is closed to cars and Road to everybody, which the code decides more strictly than its comment). The text of a tag (highway, maxspeed, oneway), regardless of case and surrounding spaces, selects street type, speed limit and direction: known highway values their own type, unknown ones no street; a number the limit itself (at least 5 km/h), known texts their limit, unknown or missing ones the default of the type; oneway yes/1 one-way, -1 one-way against the order of nodes, everything else both directions.',
         [IN, CF], 'for every street type, vehicle category and text of the tags',
         'tests read one small pbf-map; most types, tags and combinations of vehicle and pickiness never occur in it',
         ['src/defaults.rs', 'src/network/mod.rs'],
         [('StreetCategory::is_for / from / parse_maxspeed / parse_lane_count / parse_oneway', 'src/defaults.rs')])
    prop('P12', 'A pbf-map yields exactly the edges of the usable ways in the right direction',
         'Reading an osm.pbf-map, a way contributes edges iff it has a street type and this type is accessible for the configured vehicles (category and pickiness). A usable way with n nodes contributes, for every pair of consecutive nodes, one edge in the direction of travel, and one in the opposite direction unless it is one-way; ways with oneway=-1 are traversed against the order of their nodes. Every such edge carries, per configured column in order, speed limit or number of lanes of its own way. Whether a way is closed or visits a node repeatedly, and tags other than highway, maxspeed and oneway, make no difference. Nodes keep their id, latitude and longitude. An object that cannot be decoded is an error. Columns that a pbf-map does not have are rejected before reading.',
         [IN, CF], 'for every map, vehicle configuration and column list',
         'tests read one small map and compare counts; wrong directions, missing end-pieces or values of another way depend on the form of ways and tags',
         ['src/io/parsing/network/graph/pbf.rs'],
         [('Parser::parse_ways / parse_nodes / preprocess', 'src/io/parsing/network/graph/pbf.rs')])
    prop('P13', 'Everything the graph tells about a node or an edge belongs to that node or edge',
         'In a built graph, source, destination, id, metrics and index of an edge, and id, coordinate and level of a node, are those of one and the same edge or node of the input, whichever accessor delivers them (by index, by id, or while iterating over the leaving or entering edges of a node). Every node and edge that was inserted and is no duplicate has exactly one entry in every array of the graph; looking up an id finds the very node or edge having it, and searching the edge between two nodes finds one iff there is one.',
         [IN], 'for every set of inserted nodes and edges in every order',
         'tests compare three tiny maps; a mix-up between the parallel arrays, or between forward and backward accessors, depends on the shape of the graph',
         ['src/network/graph/mod.rs', 'src/network/graph/building.rs'],
         [('EdgeAccessor, HalfEdge, NodeAccessor', 'src/network/graph/mod.rs'), ('GraphBuilder::finalize', 'src/network/graph/building.rs')])
    prop('P14', 'The leaving and entering edges of every node are complete and correct',
         'For every node of a built graph, iterating over its leaving edges delivers exactly the edges with this node as source, and iterating over its entering edges exactly those with this node as destination; each edge is delivered once, with its own forward index. This includes nodes without leaving or without entering edges, wherever they are in the order of nodes.',
         [IN], 'for every graph, including isolated, trailing and self-looping nodes',
         'tests check a handful of small graphs; the offset arithmetic must be right for every distribution of degrees over nodes',
         ['src/network/graph/building.rs', 'src/network/graph/mod.rs'],
         [('forward- and backward-offset-arrays', 'src/network/graph/building.rs'), ('EdgeAccessor::starting_from', 'src/network/graph/mod.rs')])
    prop('P15', 'Only true duplicates are removed, and shortcuts keep their replaced edges',
         'While building, an edge is removed only if id, source, destination and every metric equal (up to the documented accuracy) those of an edge that is kept. A shortcut of the input refers, in the built graph, to the same two edges as in the input, although edges were sorted and duplicates removed; an edge is a shortcut in the graph iff it was one in the input, and its replaced edges are those stored with it.',
         [IN], 'for every multiset of edges and every position of duplicates and shortcuts',
         'the translation of shortcut indices depends on the order of edges and on the number of duplicates before them; tests contain nearly no duplicates besides shortcuts',
         ['src/network/graph/building.rs', 'src/network/graph/mod.rs'],
         [('removal of duplicates and correction of shortcuts', 'src/network/graph/building.rs'), ('EdgeAccessor::sc_edges', 'src/network/graph/mod.rs')])
    prop('P16', 'Generated metrics are computed from the operands named in the configuration',
         'For every metric generated while building (custom, haversine, copied, converted, calculated, merged from a file), the value stored for an edge is computed from the metrics named in the configuration of that very edge (or from the line of the merged file having the id of that edge), in the units named there. Id, unit and category of the new metric are added exactly once, at the position of its values, so looking up the new id afterwards delivers these values; a conversion replaces value, id and unit together. Generated meta-information gets the requested kind and id; generated edge-ids are the indices of the edges and can be looked up.',
         [IN], 'for every generating configuration and every graph',
         'tests generate one fixed list of metrics; a mix-up of operands, units or positions only shows for other orders of ids and other units',
         ['src/network/graph/building.rs', 'src/configs/parsing/edges', 'src/configs/parsing/generating'],
         [('generating metrics', 'src/network/graph/building.rs'), ('UnitInfo::from', 'src/configs/parsing/edges/metrics.rs')])
    prop('P17', 'Ids are unambiguous',
         'A configuration giving two columns of edges the same id is rejected, whether the ids are read or generated, and whatever their kind; nothing is generated under an id that exists already. A graph with two edges of the same raw id is rejected. The metrics of a parsed configuration keep order, id and unit of their columns.',
         [IN], 'for every configuration and every set of edge-ids',
         'all configurations of the tests are free of duplicates; pairs of kinds and positions are not enumerable by tests',
         ['src/configs/parsing/edges/mod.rs', 'src/network/graph/building.rs'],
         [('Config::try_from', 'src/configs/parsing/edges/mod.rs'), ('ids while generating, mapping of raw ids', 'src/network/graph/building.rs')])
    prop('P18', 'Metrics are positive, and normalised by their mean if requested',
         'Every metric read for an edge is at least the accuracy (values near zero are raised to it) or loading fails; NaN and negative values fail. If metrics are normalised, every metric is divided by the mean of its own column over all edges of the graph, results near zero are raised to the accuracy, and the graph remembers the means; otherwise it has no means. No edges, or a mean near zero, is an error.',
         [IN], 'for every map and every choice of metrics',
         'tests use maps with plain positive metrics; sums over all edges and columns, NaN and zero means are never sampled',
         ['src/network/graph/building.rs', 'src/helpers/mod.rs'],
         [('check of metrics and normalisation', 'src/network/graph/building.rs')])
    prop('P19', 'A search does not depend on the searches before it',
         'A search reuses the memory of earlier searches with the same instance, also with other graphs and the other algorithm. Before it starts, all costs, predecessors and marks a former search has written are reset in both directions (every write is noted, every noted cell is reset), the arrays have one cell per node of the graph of the query, and queue, notes and flags hold nothing of a former search. So the result of a query depends on the query alone.',
         [HI], 'for every sequence of queries, graphs and algorithms on one instance',
         'what is left behind depends on the history of queries; tests run few queries per instance, mostly on one graph',
         ['src/routing/dijkstra.rs'],
         [('Dijkstra::init_query', 'src/routing/dijkstra.rs'), ('Dijkstra::compute_best_path', 'src/routing/dijkstra.rs')])
    prop('P20', 'A computed path is a connected walk from source to destination',
         'If a search returns a path, its edges lead, each starting where the one before ended, from the source of the query to its destination: predecessors are noted for the head of the very edge that was relaxed, in the direction of the search, together with the costs; the path consists of the predecessors from the meeting node back to the source, in reversed order, followed by those from the meeting node on to the destination, without gaps. Source and destination (indices and ids) of the path are those of the query.',
         [IN], 'for every graph, query and algorithm',
         'tests compare the paths of a few queries in three small maps; a mix-up of directions or halves shows only for particular meeting nodes',
         ['src/routing/dijkstra.rs', 'src/routing/paths.rs', 'src/network/graph/mod.rs'],
         [('creating the path', 'src/routing/dijkstra.rs'), ('relaxing leaving edges', 'src/routing/dijkstra.rs')])
    prop('P21', 'Searching and stopping follow the rules the optimality rests on',
         'Both directions start with costs zero at their end of the query. The cheapest entry is taken next; it is skipped only if it is outdated (or its direction is finished). All leaving edges of a node (for the contracted search: those leading to nodes of at least the same level) are tried, with the weighted sum of all metrics of the edge added to the costs of the node. Costs are stored iff they are lower than the known ones, and improved nodes are queued with their new costs in the same direction (the plain search may stop queueing once both directions have met). A meeting needs both directions; the remembered meeting is replaced exactly by cheaper ones, counting the costs of both directions. A direction is finished only by an entry at least as dear as the best meeting; the search stops only when the queue is empty or both directions are finished. No path is reported only if a weight is negative (zero is allowed) or the searches do not meet.',
         [IN], 'for every graph, weighting and query',
         'a wrong condition makes paths worse only in particular weightings; tests compare costs in small maps with few weightings',
         ['src/routing/dijkstra.rs', 'src/helpers/mod.rs', 'src/network/graph/building.rs'],
         [('Dijkstra::compute_best_path', 'src/routing/dijkstra.rs'), ('CostNode ordering', 'src/routing/dijkstra.rs'), ('helpers::dot_product', 'src/helpers/mod.rs')])
    prop('P22', 'Searching and unpacking terminate',
         'A query with a negative weight is refused before the search. Costs, predecessors and queue entries are only added for strictly lower costs, so no cell is improved endlessly along edges of zero or positive costs and predecessors form no cycle. Unpacking a path stops with an error, instead of running (and allocating) endlessly, if shortcuts of the graph refer to each other in a cycle.',
         [IN], 'for every graph (including cyclic shortcuts), weighting and query',
         'termination is no matter of samples: zero-cost cycles, negative weights and cyclic shortcuts do not occur in the tests',
         ['src/routing/dijkstra.rs', 'src/routing/paths.rs'],
         [('Dijkstra::compute_best_path', 'src/routing/dijkstra.rs'), ('Path::try_flatten', 'src/routing/paths.rs')])
    prop('P23', 'Unpacking keeps the walk and sums the costs of its edges',
         'Flattening a path replaces every shortcut by its first edge followed by its second one, recursively and in place, until no shortcut is left; all other edges, their order, and source and destination stay. The costs of a path (flattened or calculated) are, for each column, the sum of the metrics of exactly its edges, starting at zero.',
         [IN], 'for every nesting of shortcuts and every path',
         'the shortcuts of the tests are nested at most once or twice, and costs are compared for few paths',
         ['src/routing/paths.rs', 'src/helpers/mod.rs'],
         [('Path::try_flatten, flatten, calc_costs', 'src/routing/paths.rs'), ('helpers::add, add_assign', 'src/helpers/mod.rs')])
    prop('P24', 'Written route-pairs are existing routes between different nodes, each once',
         'Every row of a written routes-file holds the ids of exactly those two nodes between which a path was searched and found, in the given graph and with the given routing-configuration; the nodes differ, no pair occurs twice, and each row has count 1. The announced number is the number of rows, at most the requested one; if as many routes are requested as there are pairs of nodes, all pairs are tried, otherwise pairs are drawn from all nodes until enough are found or as many are tried as are possible. The pairs depend on nothing but graph, configuration and seed.',
         [IN, CF], 'for every graph, routing-configuration, seed and number of routes',
         'the written routes depend on random draws; repeated draws, unreachable nodes and equal ends occur only for particular seeds and graphs, and no test writes routes',
         ['src/io/writing/routing/random_or_all.rs', 'src/io/writing/routing/mod.rs'],
         [('random_or_all::Writer::write', 'src/io/writing/routing/random_or_all.rs')])
    prop('P25', 'Balancing counts every route of every pair exactly once on its edges',
         'While balancing, every given route-pair is sent to exactly one worker; nothing taken from the list is lost, work is sent as long as pairs are left, and it goes to a worker that has reported. A worker answers every work it receives with its own number and with the number of pairs in it. For each pair, one search is done between the nodes of its ids, in the graph of the worker, with the configured alphas, scales and algorithm; if it finds a path, a path found is chosen as often as the route occurs (one drawn from all paths found, if exploring, with random numbers of the seed of the work). The master unpacks every chosen path and adds one to the counter of each of its edges, starting from zero; unpacked paths are collected iff this is asked for. The result is given only after all workers have finished, and the failure of a worker is a failure of the whole.',
         [IN, CF, FA, SC], 'for every list of route-pairs, number of workers, order of their reports, and failure of a worker',
         'balancing needs the feature gpl, so that no test runs it at all; losses and double counts depend on chunk sizes, multiplicities and the order in which workers report',
         ['src/bin/osmgraphing/balancing/multithreading.rs'],
         [('Worker::work_off_with_dijkstra, work_off_with_explorator', 'src/bin/osmgraphing/balancing/multithreading.rs'), ('Master::work_off, Master::send, WorkerSocket::drop_and_join', 'src/bin/osmgraphing/balancing/multithreading.rs')])
    prop('P26', 'Iterations of balancing follow the configuration, the new metric its formula',
         'Balancing does the configured number of iterations. Each one, in this order, writes the current graph for contraction, contracts it, reads the result and the routing-configuration, routes all pairs of the file, and updates the new metric; the first iteration contracts without the new metric, uses the configuration of the first iteration and gives the new metric no weight, later ones use the configured weights. Files of an iteration, those merged in included, lie in the directory of this iteration. The contraction compares costs with the accuracy that is used everywhere (1e-6). The update divides the workloads of all edges by their mean w, combines them with the old value o of the same edge into o+(w-o)*correction (explicit euler) or (i*o+w)/(i+1) in iteration i (averaging), whichever is configured, replaces values that are not above the configured minimum by it (without a minimum, values that are not positive are an error iff so configured), and divides by the new mean; only the configured metric changes. The balanced graph is stored in the last iteration, before it is changed again.',
         [CF], 'for every balancing configuration, number of iterations and workload',
         'balancing needs the feature gpl, so that no test runs it at all; off-by-one iterations and swapped methods only show after several iterations',
         ['src/bin/osmgraphing/balancing/mod.rs', 'src/bin/osmgraphing/balancing/simulation_pipeline.rs', 'src/defaults.rs'],
         [('run and simulation_pipeline', 'src/bin/osmgraphing/balancing'), ('update_new_metric', 'src/defaults.rs')])
    prop('P28', 'Routes-files are read completely, and pairs refer to the nodes of their ids',
         'A routes-file yields one pair per announced row, in the order of the file: source id, destination id and count are columns one, two and three. Empty lines and comments are skipped everywhere. A row with too few columns, a value that is no number, or fewer rows than announced make reading fail. Looking up a pair in a graph delivers, for source and destination each, the node with that id (a missing one is refused, not replaced).',
         [IN], 'for every routes-file and graph',
         'tests read one well-formed file; malformed, truncated and oddly ordered ones are not sampled',
         ['src/io/parsing/routing/routes.rs', 'src/io/parsing/routing/mod.rs', 'src/network/routes.rs', 'src/helpers/mod.rs'],
         [('Parser::preprocess, parse_route_pairs', 'src/io/parsing/routing/routes.rs'), ('RoutePair::into_idx, into_node', 'src/network/routes.rs'), ('is_line_functional', 'src/helpers/mod.rs')])
    prop('P27', 'External contraction runs as configured, and its failure is an error',
         'Building and running the external contraction (multi-ch-constructor) passes exactly the configured values: dimension, cost-accuracy, number of threads, contraction-ratio, input and output file are each given with the option they belong to, and the switches for osm-ids and external edge-ids are given iff they are configured. A process that cannot be started, or that ends without success, makes the call fail, and no further step follows; success is reported only if every step succeeded.',
         [CF, FA], 'for every configuration and every failure of one of the started processes',
         'no test starts the external tool; swapped options and ignored exit-states show only with the tool installed and failing',
         ['src/multi_ch_constructor/mod.rs', 'src/multi_ch_constructor/configs.rs'],
         [('build, construct_ch_graph', 'src/multi_ch_constructor/mod.rs')])
    prop('P29', 'Approximate comparison decides by the tolerance and agrees with itself',
         'Two approximated numbers are equal iff their difference, whatever its sign, is within the documented accuracy of 1e-6. Numbers equal in this sense compare as equal, others as the plain numbers do, in this order, and less, less-or-equal, greater and greater-or-equal follow from that. Lists are equal iff the values at the same positions are equal; they are less (or equal, greater) iff all their values are, and have no order if their values compare differently. Optional values compare with no value below every value. Coordinates are equal iff latitude and longitude both are.',
         [IN], 'for every pair of values, lists, options and coordinates',
         'all tests of costs and coordinates rest on these comparisons: one that always says equal makes tests pass',
         ['src/approximating.rs'],
         [('Approx', 'src/approximating.rs')])
    prop('P30', 'Exported vehicles and edge-values describe the routes and edges they are made of',
         'Every path is exported as one vehicle, named by the source and destination of this path and followed by the nodes of this path in the order of travel: the source of its first edge once, then the destination of every edge, without gaps. When values from outside the graph are written per edge, every row holds the id of an edge and the value of this very edge; all edges get a row, except that shortcuts are left out if they are not wanted. The header is written iff it is wanted. The export of an evaluation writes the edges and the given workloads into the folder of the results, the workloads under a header that names edge-id and number of routes.',
         [IN], 'for every graph, path and file of routes',
         'no test exports vehicles, and values of edges are compared for one map only',
         ['src/io/writing/smarts.rs', 'src/io/writing/network/edges.rs'],
         [('smarts::Writer', 'src/io/writing/smarts.rs'), ('write_external_values', 'src/io/writing/network/edges.rs')])
    prop('P31', 'Unsuitable configurations and files are refused before a map is read',
         'A configuration without node-id, latitude or longitude is refused, so is one with more metrics (generated ones included, merged ones aside) than the compiled graph has place for, and one that names only one of the two columns of replaced edges; as many metrics as there is place for are accepted. Columns that a pbf-map cannot provide are refused for pbf-maps. The extension of the map-file, whether written in capitals or not, decides which reader or writer is used; files of other formats are refused.',
         [CF, IN], 'for every configuration and every file-name',
         'tests use valid configurations only',
         ['src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/graph/pbf.rs', 'src/io/parsing/network/graph/mod.rs', 'src/io/mod.rs'],
         [('preprocess', 'src/io/parsing/network/graph/fmi.rs'), ('preprocess', 'src/io/parsing/network/graph/pbf.rs'), ('Parser::parse', 'src/io/parsing/network/graph/mod.rs')])
    # -- properties that static analysis does not decide here
    prop('P32', 'A computed path is the cheapest one',
         'For every query with non-negative weights the returned path has minimal personalised costs among all paths from source to destination, and no path is returned only if none exists; contracted and plain search agree on the costs.',
         [IN], 'for every graph, query and weighting',
         'optimality is compared for a few pairs of nodes of small maps only',
         ['src/routing/dijkstra.rs'], [('Dijkstra::compute_best_path', 'src/routing/dijkstra.rs')],
         na='Minimality relates run-time sums of floating-point weights over all paths of an unbounded graph, and for contracted graphs rests on levels and shortcuts computed by an external program; no sound static argument in reach bounds these. The local rules it rests on (relaxation, meeting, stopping, levels, order of the queue, reset) are decided as P19 to P23.')
    prop('P33', 'The exploration of alternative routes is complete',
         'The exploration returns every tolerated path whose costs lie on the convex hull of the costs of all paths, up to the accuracy.',
         [IN], 'for every graph, query and tolerances',
         'tests compare two small graphs only',
         ['src/routing/explorating.rs'], [('ConvexHullExplorator::fully_explorate', 'src/routing/explorating.rs')],
         na='Depends on the numerical behaviour of a linear solver and of the triangulation of an external C++ library; neither values nor the number of cells can be bounded from the source.')
    prop('P34', 'Writing and reading a graph again yields the same graph',
         'A graph written with a configuration and read with the corresponding one has the same nodes, edges and, up to the accuracy, metrics.',
         [IN, CF], 'for every graph and pair of corresponding configurations',
         'tests round-trip a few maps',
         ['src/io/writing/network', 'src/io/parsing/network'], [('fmi::Writer, fmi::Parser', 'src/io')],
         na='Equality after the round trip is numeric (decimal text, units, normalisation by means, removal of duplicates) and relational between two runs with two configurations. What can be decided from the source, the meaning of each written and each read column, the counts and the completeness, is P03 to P06.')
    prop('P35', 'Balancing gives the same result in every run',
         'Two runs of balancing with equal configuration and maps yield equal metrics.',
         [SC], 'for every number of threads and schedule',
         'no test runs balancing',
         ['src/bin/osmgraphing/balancing/multithreading.rs'], [('Worker::run', 'src/bin/osmgraphing/balancing/multithreading.rs')],
         na='Not a guarantee of the code: workers draw random routes from the work they happen to receive, so that the result depends on the schedule by design. What holds for every schedule (nothing lost, nothing counted twice) is P25.')
    prop('P36', 'Queries and building need bounded time and memory',
         'Searching, building and exploring finish within time and memory in proportion to the graph, as the crate advertises for large maps.',
         [IN], 'for every graph and query',
         'tests are small',
         ['src/routing', 'src/network/graph'], [('Dijkstra, GraphBuilder', 'src')],
         na='A quantitative run-time bound that depends on the input; static cost analysis of heap-based searches over unbounded graphs is out of reach. Termination itself is P22.')
