#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
A='engine/src/algo/'; D='engine/src/datastr/'; C=A+'customizable_contraction_hierarchy/'
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','Plain Dijkstra search is exact',
 'For every directed graph with non-negative weights (parallel arcs, zero weights, self loops and unreachable parts included) and every sequence of queries on one reused query object, the answer is the length of a shortest path, or "not connected" exactly if there is no path. The path handed out starts at the source, ends at the target, uses only arcs of the graph and is as long as the reported distance; one-to-all distances, settle order and Dijkstra ranks agree with it. Wrapping the engine in the disconnected-target pre-check never changes an answer.',
 ['inputs','histories'],'all graphs, all source/target pairs, all query sequences on one server',
 'tests run two fixed toy graphs with a few pairs each; nothing is quantified over graphs or over reuse of the search state',
 [A+'dijkstra.rs',A+'dijkstra/generic_dijkstra.rs',A+'dijkstra/query/dijkstra.rs',A+'dijkstra/query/mod.rs',D+'index_heap.rs'],
 [('label setting with decrease-key',A+'dijkstra/generic_dijkstra.rs'),('timestamped distances',D+'timestamped_vector.rs')],
 ['QueryServer::query','one_to_all','ranks','DijkstraRun iterator'])
p('C02','Bidirectional search is exact under every direction strategy',
 'For every graph and query history, bidirectional search returns the shortest-path distance (or "not connected") and a path of exactly that length, for each available direction-selection strategy. A query with a distance cap returns the distance whenever it is below the cap, and never a value smaller than the true distance.',
 ['inputs','schedules','histories'],'all graphs, pairs, caps, and all interleavings of the forward and backward search',
 'tests use one fixed graph and one strategy; the stopping rule depends on how the two searches interleave',
 [A+'dijkstra/query/bidirectional_dijkstra.rs',A+'dijkstra.rs'],[('stopping criterion on queue minima',A+'dijkstra/query/bidirectional_dijkstra.rs'),('BidirChooseDir',A+'dijkstra.rs')],['QueryServer::query','distance_with_cap'])
p('C03','Lower-bound potentials are valid and goal-directed search stays exact',
 'Every distance estimate handed out for a target is at most the true remaining distance in the lower-bound metric (equal to it for hierarchy-based estimates, and "unreachable" only for nodes that cannot reach the target), in whatever order and however often nodes are asked and targets are changed. Unidirectional and bidirectional goal-directed search using these estimates returns exactly the shortest distance and a matching path, also when arcs are costlier than in the lower-bound metric.',
 ['inputs','histories'],'all graphs, metrics dominating the lower bound, targets, evaluation orders and query sequences',
 'no test instantiates any potential',
 [A+'a_star.rs',A+'alt.rs',A+'ch_potentials.rs',A+'dijkstra/query/dijkstra.rs',A+'dijkstra/query/bidirectional_dijkstra.rs'],
 [('lazy potential evaluation',A+'ch_potentials.rs'),('landmark triangle inequality',A+'alt.rs'),('averaged / symmetric bidirectional potentials',A+'a_star.rs')],['Potential::potential','QueryServer::query'])
p('C04','Hierarchy construction yields the chordal supergraph of the order',
 'For every graph and every node order, the built hierarchy contains exactly the undirected arcs that eliminating nodes in that order creates, each input arc is represented in its direction, and the elimination tree parent of a node is its lowest higher-ranked neighbour. The separator tree, the bottom-up/top-down reorderings, the pruning of never-usable arcs and the conversion to a directed hierarchy keep these facts: the layout reorderings are permutations that induce the same fill-in, the geographic reordering is a permutation that keeps every separator above the cells it separates, and only arcs that can never carry a finite weight are dropped.',
 ['inputs'],'all graphs and all node orders','no test builds a hierarchy',
 [C+'contraction.rs',C+'mod.rs',C+'separator_decomposition.rs',C+'reorder.rs'],[('neighbour-set merging during contraction',C+'contraction.rs'),('separator tree from elimination tree',C+'separator_decomposition.rs')],['CCH::fix_order_and_build','contract','elimination_tree','separators','to_directed_cch','remove_always_infinity'])
p('C05','Customization is exact and independent of the parallel schedule',
 'For every hierarchy, every metric and every number of worker threads, basic customization gives each hierarchy arc exactly the length of a shortest path between its endpoints whose interior nodes are all ranked lower than both (unusable arcs stay infinite), and records for each arc either "original arc" or a lower triangle that realises this length. Running it again, with other thread counts or after other metrics, gives the same weights.',
 ['inputs','schedules','histories','configurations'],'all graphs, orders, metrics, thread counts, task interleavings and customization histories',
 'no test customizes anything, and a race or dependency error shows only for particular schedules',
 [C+'customization.rs',C+'customization/parallelization.rs',C+'customization/directed.rs'],[('separator-based task tree',C+'customization/parallelization.rs'),('lower-triangle relaxation',C+'customization.rs')],['customize','customize_directed','forward_graph','backward_graph','unpack_outgoing'])
p('C06','Customizable-hierarchy queries are exact for the current metric',
 'For every graph, node order, metric and history of queries and metric updates, a hierarchy query returns the shortest-path distance of the metric most recently installed, or "not connected" exactly if there is no path of finite weight. The unpacked path consists of arcs of the input graph and is exactly as long as the reported distance; this holds for basic, perfect and directed customization alike.',
 ['inputs','histories','configurations'],'all graphs, orders, metric sequences, query sequences','no test runs a hierarchy query',
 [C+'query.rs',C+'query/stepped_elimination_tree.rs',C+'mod.rs'],[('elimination tree walks with pruning',C+'query.rs'),('shortcut unpacking',C+'mod.rs')],['Server::query','Server::update','node_path'])
p('C07','Perfect customization loses no shortest path',
 'After perfect customization of a full hierarchy every remaining arc weighs exactly the shortest distance between its endpoints (on pruned and directed hierarchies never less), and the arcs removed are never needed: all distances computed from the reduced hierarchy (by any of the search methods working on it) equal those in the input graph. The reduced arrays are consistent, for undirected and directed hierarchies, for every number of threads and also for graphs that are tiny, sparse, edgeless or contain isolated nodes; validity-annotated customization gives every arc its exact distance and the latest validity of the arcs realising it.',
 ['inputs','configurations','schedules'],'all graphs, orders, metrics and thread counts','no test runs perfect customization',
 [C+'customization.rs',C+'customization/directed.rs',C+'customization/validity.rs'],[('upper/intermediate triangle relaxation and pruning',C+'customization.rs'),('chunked rebuild',C+'customization.rs')],['customize_perfect','customize_directed_perfect','rebuild_customized_perfect'])
p('C08','Witness-based contraction hierarchies answer exactly',
 'For every graph without parallel arcs and with finite weights, and for every node order, contracting with witness searches yields a hierarchy whose queries return the exact shortest distance or "not connected", together with a path of the input graph that is exactly as long. Partial contraction, with any number of contracted nodes, yields an overlay (the same arcs in its forward and its backward array) that preserves all distances between the nodes that remain.',
 ['inputs','histories'],'all simple graphs, node orders, query sequences','no test contracts a graph this way',
 [A+'contraction_hierarchy/mod.rs',A+'contraction_hierarchy/query.rs'],[('witness search',A+'contraction_hierarchy/mod.rs'),('bidirectional upward search',A+'contraction_hierarchy/query.rs')],['contract','overlay','Server::query'])
p('C09','One-to-many and label-based distances are exact',
 'For every graph, hierarchy, target selection and source, restricted one-to-many search (scalar and vectorised batch form, and the lazy form) reports for every selected node exactly the shortest distance from the source, infinite if unreachable, whatever was selected or queried before; a selection may name a node several times. Hub labels computed from a hierarchy give the same distance for every pair.',
 ['inputs','histories'],'all graphs, selections, sources and selection/query histories','untested in the repository',
 [A+'rphast.rs',A+'hl.rs',A+'ch_potentials.rs'],[('restricted downward sweep',A+'rphast.rs'),('label merge',A+'hl.rs'),('bucket / lazy selection',A+'ch_potentials.rs')],['RPHASTQuery::query','SSERPHASTQuery::query','HubLabels::dist'])
p('C10','k-nearest-neighbour queries return the k nearest targets',
 'For every graph, set of distinct targets, source and k >= 1, each nearest-neighbour method returns the min(k, reachable targets) smallest distances (the search-based method in ascending order, the others as an unordered collection), each attached to a distinct selected target that really has that distance, and never an unreachable target. All methods agree with each other on the distances for any sequence of selections and queries.',
 ['inputs','histories'],'all graphs, orders, target sets, k and query histories','no test runs a nearest-neighbour query',
 [A+'dijkstra/query/nearest_neighbor.rs',C+'query/nearest_neighbor.rs'],[('separator-tree search with bounds',C+'query/nearest_neighbor.rs'),('bucket search',C+'query/nearest_neighbor.rs')],['select_targets','query'])
p('C11','Turn expansion preserves turn-aware shortest paths',
 'For every graph and every table of turn costs and forbidden turns, distances in the turn-expanded graph between two arcs equal the cheapest turn-aware walk from the first to the second (arc weights plus turn costs, forbidden turns never used). Lower bounds lifted from the node graph to the expanded graph remain lower bounds.',
 ['inputs'],'all graphs and all turn tables','no test expands a graph',
 [D+'graph.rs',D+'graph/time_dependent/graph.rs',A+'a_star.rs'],[('line graph construction',D+'graph.rs'),('potential lifting',A+'a_star.rs')],['line_graph','TurnExpandedPotential'])
p('C12','Priority queues always deliver a minimum',
 'For every sequence of operations, the indexed queue behaves as a map from id to key: pop and peek deliver an entry of minimal key, key updates in both directions take effect, membership, lookup, length, draining and clearing agree with the history. The label heap delivers its maximum, keeps popped entries apart, and filtering keeps exactly the entries accepted.',
 ['inputs','histories'],'all operation sequences over ids and keys, any heap size','no test calls the queues directly; order violations hide behind re-insertion',
 [D+'index_heap.rs',D+'heap.rs'],[('4-ary heap with position index',D+'index_heap.rs'),('split binary heap',D+'heap.rs')],['push','pop','peek','decrease_key','increase_key','update_key','clear','retain'])
p('C13','Fast-reset containers behave as freshly initialised',
 'For every history of writes and resets (including more resets than the internal counter can hold), the resettable vectors return the last value written since the last reset and the default otherwise, for each element independently. Bit sets return exactly the bits set and not cleared since, in reads, iteration and counting.',
 ['inputs','histories'],'all histories of set/get/reset on any size','resets are exercised only incidentally and counter wrap-around never',
 [D+'timestamped_vector.rs',D+'clearlist_vector.rs',D+'rank_select_map.rs'],[('timestamps with overflow handling',D+'timestamped_vector.rs'),('clear lists',D+'clearlist_vector.rs')],['Index','IndexMut','set','reset','get','clear'])
p('C14','Identifier compaction maps are exact order-preserving bijections',
 'For every set of identifiers, the compact index of a member is the number of smaller members, non-members have none, the next-lower lookup and the inverse lookup are exact, and the size is the number of members. The arc-to-tail lookup returns the tail of every arc for every graph, including graphs with nodes without outgoing arcs, and the external link-id mapping translates back and forth without loss.',
 ['inputs'],'all identifier sets and all graphs','tests use two fixed sets smaller than two index blocks',
 [D+'rank_select_map.rs',D+'graph/link_id_to_tail_mapper.rs','conversion/src/here/link_id_mapper.rs'],[('prefix popcounts',D+'rank_select_map.rs'),('block search in inverse',D+'rank_select_map.rs')],['at','get','at_or_next_lower','inverse','link_id_to_tail','here_to_local_link_id'])
p('C15','Graph representation changes preserve the graph',
 'For every graph, reversing, renumbering by a node order (optionally filtered), splitting into upward and downward parts, dropping infinite arcs, unifying parallel arcs and converting between adjacency lists and arrays keep exactly the multiset of arcs (tail, head, weight) they are meant to keep. Node orders are mutually inverse bijections, and all ways of reading the same graph (arc lists, neighbour lists, degrees, arc endpoints, single arcs) agree.',
 ['inputs'],'all graphs, orders and predicates','one test reverses one graph',
 [D+'graph/first_out_graph.rs',D+'graph.rs',D+'node_order.rs',A+'topocore.rs'],[('counting-sort style CSR construction',D+'graph/first_out_graph.rs')],['reversed','permutated','ch_split','unify_parallel_edges','NodeOrder'])
p('C16','Stored data is read back unchanged',
 'For every value the library can store (number vectors, bit sets, graphs, node orders, hierarchies and perfectly customized hierarchies), reading back what was written gives an object that behaves identically, and writing again gives the same bytes. A file whose size does not fit is rejected rather than misread.',
 ['inputs','histories'],'all storable values','no test touches the disk format',
 ['engine/src/io.rs',C+'mod.rs',D+'graph/first_out_graph.rs',D+'node_order.rs'],[('raw byte reinterpretation',"engine/src/io.rs"),('Deconstruct/Reconstruct','engine/src/io.rs')],['write_to','load_from','deconstruct_to','reconstruct_from'])
p('C17','Travel-time functions evaluate and bound correctly',
 'For every periodic piecewise-linear travel-time profile satisfying first-in-first-out, evaluation at any departure equals linear interpolation of the profile (rounded consistently), is periodic and never lets a later departure arrive earlier. Minimum and maximum, also restricted to a departure interval (wrapping midnight included), bound every value in it, its average over an interval is the mean of the values the interval covers, and live-traffic overlays stay first-in-first-out and return to the prediction once they have expired.',
 ['inputs'],'all profiles, departures, intervals and live reports','tests evaluate a few points of fixed profiles',
 [D+'graph/time_dependent/piecewise_linear_function.rs',D+'graph/time_dependent/graph.rs',D+'graph/time_dependent/geometry.rs'],[('segment location and interpolation',D+'graph/time_dependent/piecewise_linear_function.rs'),('live overlay switching',D+'graph/time_dependent/graph.rs')],['eval','lower_bound','upper_bound','lower_bound_in_range','LiveTDGraph::eval','PessimisticLiveTDGraph::eval'])
p('C18','Time-dependent search returns the earliest arrival',
 'For every time-dependent network with first-in-first-out profiles, every departure time and query history, the search reports the earliest possible arrival at the target (or "not connected"), with predicted, live and combined traffic. Following the reported path from the departure time arrives exactly then. The sampling heuristic may miss the fastest journey but only reports existing journeys with the time they really take.',
 ['inputs','histories'],'all networks, live reports, departures and query sequences','no test runs a time-dependent query',
 [A+'dijkstra/query/td_dijkstra.rs',A+'dijkstra/query/dijkstra.rs',D+'graph/time_dependent/graph.rs'],[('FIFO label setting',A+'dijkstra/query/td_dijkstra.rs')],['TDQueryServer::td_query'])
p('C19','Time-dependent lower bounds keep accelerated queries exact',
 'For every network with predicted and live traffic and every query, the time-dependent estimates never exceed the real remaining travel time at the time they are asked for. Every accelerated time-dependent query built on them returns exactly the earliest arrival of the plain search and a path realising it.',
 ['inputs','histories','configurations'],'all networks, live reports, departures, estimate families and query histories','no test covers them',
 [A+'td_astar.rs',A+'ch_potentials/td_query.rs',A+'ch_potentials/query.rs',C+'customization/ftd_for_pot.rs'],[('interval-minimum and multi-metric potentials',A+'td_astar.rs')],['TDPotential::potential','td_query'])
p('C20','Time-dependent hierarchies answer like a time-dependent search',
 'For every network of first-in-first-out profiles, node order, approximation-free customization and thread count, hierarchy queries return the earliest arrival of plain time-dependent search up to the documented numerical tolerance, and "not connected" exactly when there is no path. Travelling the unpacked path takes the reported time, and whole-day profile queries give the travel time for every departure of the day.',
 ['inputs','histories','configurations'],'all networks, orders, departures, thread counts','no test customizes or queries a time-dependent hierarchy',
 [A+'catchup.rs',A+'catchup/profiles.rs',C+'customization/ftd.rs',D+'graph/floating_time_dependent/shortcut.rs'],[('lazy shortcut expansion',D+'graph/floating_time_dependent/shortcut_source.rs'),('corridor search',A+'catchup.rs')],['Server::td_query','customize'])
p('C21','Travel-time profile algebra is pointwise correct',
 'For every pair of periodic first-in-first-out profiles, linking gives at every departure the travel time of one after the other, merging gives the pointwise minimum together with a correct record of which input is smaller where, and appending or restricting to a departure interval keeps the values, all up to the numerical tolerance. Driving along a path of a floating network takes what driving its arcs one after the other takes, also backwards from an arrival, and a live report replaces the prediction exactly while it lasts. Approximations stay on the promised side and within the promised error.',
 ['inputs'],'all profiles, time ranges','tests merge and link a few fixed small profiles',
 [D+'graph/floating_time_dependent/piecewise_linear_function.rs',D+'graph/floating_time_dependent/travel_time_function.rs'],[('sweep with cursors',D+'graph/floating_time_dependent/piecewise_linear_function.rs')],['link','merge','evaluate'])
p('C22','Low-degree shortcuts and core restriction never change an answer',
 'For every graph and query history, searches that skip degree-two and degree-three nodes or restrict themselves to the largest biconnected core and the component of the target return the exact shortest distance and a path of the input graph with that length, sequentially and with two concurrent search threads. Contracted core overlays preserve distances between all core nodes. Alternative routes found with penalties are existing walks of the input graph between the queried nodes, at most a quarter longer than the shortest one (except that the iterative variant may stop with a longer one), and each differs from what was reported before in more than a fifth of its length.',
 ['inputs','schedules','histories'],'all graphs, queries, thread interleavings','no test builds a core',
 [A+'topocore.rs',A+'dijkstra/gen_topo_dijkstra.rs',A+'ch_potentials/query.rs'],[('virtual core numbering',A+'topocore.rs'),('chain skipping',A+'dijkstra/gen_topo_dijkstra.rs'),('concurrent bidirectional search',A+'ch_potentials/query.rs')],['virtual_topocore','Server::query'])
p('C23','Detour detection and traffic-aware routing judge subpaths exactly',
 'For every graph, path and tolerance, the detection reports a set of subpaths that are each too long by the chosen criterion in the reference metric, and reports none exactly when the path has no such subpath. Traffic-aware routing by path blocking returns a shortest path in live (also time-dependent) traffic among the paths free of such subpaths, or none exactly if there is none; the heuristic variants (detour blocking, path fixing) only answer with a path free of such subpaths, and what they reject on the way contains one and is never proposed again.',
 ['inputs','histories'],'all graphs, paths, tolerances, metrics and query histories','no test covers it',
 [A+'minimal_nonshortest_subpaths.rs',A+'traffic_aware.rs',A+'traffic_aware/time_dependent.rs',A+'traffic_aware/td_live.rs',A+'traffic_aware/td_traffic_pots.rs'],[('minimal non-shortest subpath scan',A+'minimal_nonshortest_subpaths.rs'),('forbidden-path automaton labels',A+'traffic_aware.rs')],['find_ubs_violating_subpaths','TrafficAwareServer::query','HeuristicTrafficAwareServer::query','IterativePathFixing::query'])
p('C24','A running server answers every request under one complete metric',
 'At any time and for any interleaving of requests and weight updates, each route answer of the HTTP service is exact for a single complete metric: the initial one or the one described by some update submitted earlier. Once an update has been installed, answers use it until another update is installed; a request naming an unknown link does not stop the service from answering later requests.',
 ['schedules','histories','inputs'],'all interleavings of queries and updates','the server has no tests',
 ['server/src/main.rs',C+'query.rs'],[('mutex-guarded hierarchy swap','server/src/main.rs')],['GET /query','GET /here_query','POST /customize'])
p('C25','Link speed estimates cover exactly the travelled links',
 'For every time-ordered sequence of position fixes and link traversals of a trace, the estimator reports each link from the first to the last fix, in order, once per traversal, with its entry time interpolated in proportion to free-flow times and a velocity equal to the covered length over the time between interpolated entry and exit. It reports nothing for links for which the trace gives no usable time interval, in particular nothing for a trace without movement.',
 ['inputs','histories'],'all traces','tests check a handful of fixed traces',
 ['engine/src/link_speed_estimates/link_speed_estimator.rs','engine/src/link_speed_estimates/event_iterator.rs'],[('event merge and state machine','engine/src/link_speed_estimates/link_speed_estimator.rs')],['LinkSpeedEstimator'])
p('C26','Every reported value appears exactly at its nesting place',
 'For every nesting of reporting contexts, collections and their items, blocked regions, captures and measured functions, also when scopes are left by a panic, each capture hands over exactly the tree of what was reported inside it, and the report of the process contains exactly the rest, each value under the keys of the contexts open around it. Nothing reported in a blocked region or in a thread without a report appears anywhere, and opening any scope where a value could be reported is possible.',
 ['inputs','histories'],'all nestings of scopes and reports','no test enables reporting',
 ['engine/src/report.rs','engine/src/report/benchmark.rs'],[('context stack','engine/src/report.rs')],['report','push_context','push_collection_context','block_reporting','capture_reporting','enable_reporting'])
if __name__=='__main__':
    with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    import re
    for x in P: assert len(x['title'])<=80,x['id']
    print(len(P))
