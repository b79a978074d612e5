"""What decides each property: trace families (recorded from the real code and
checked by TLC against a trace specification), TLC-generated behaviours that
are replayed into the code, and exhaustively checked models."""

TECH = "TLA+ model checked with TLC; trace validation of the real code against the specification"

PROPS = {
    "C01": dict(level="model_checking",
                traces=[dict(fam="sp", spec="RoutingTrace", quick=700, thorough=9000)],
                models=[dict(spec="DijkstraModel", quick="DijkstraModel", thorough="DijkstraModelBig")],
                note="Every settle step, queue content, distance, path, rank list is checked by the spec; all 3-node graphs over weights {absent,0,1,3} in thorough; model: exact on all small graphs."),
    "C02": dict(level="model_checking",
                traces=[dict(fam="bidir", spec="RoutingTrace", quick=700, thorough=9000)],
                models=[dict(spec="BidirModel", quick="BidirModel", thorough="BidirModelBig")],
                note="Traces of both strategies and of capped queries; model: every interleaving of the two search directions on small graphs is exact."),
    "C03": dict(level="model_checking",
                traces=[dict(fam="pot", spec="RoutingTrace", quick=500, thorough=6000)],
                models=[dict(spec="BidirModel", quick="BidirSym", thorough="BidirSymBig"), dict(spec="BidirModel", quick="BidirAvg", thorough="BidirAvgBig")],
                note="Every estimate handed out (hierarchy, landmark, baseline, permuted, bucketed, path-unpacking) and every A*/bidirectional A* answer is checked against certified distances of both metrics; model: all interleavings of both goal-directed searches on small graphs."),
    "C04": dict(level="model_checking",
                traces=[dict(fam="cch", spec="CCHTrace", quick=600, thorough=8000)],
                models=[dict(spec="CCHModel", quick="CCHModel", thorough="CCHModelBig")],
                note="Arrays, elimination tree, arc lists, inverted arrays, separator tree, reorderings, pruned and directed forms of each built hierarchy are checked against elimination in the given order; model: elimination equals the path definition of fill-in on all small graphs."),
    "C05": dict(level="model_checking",
                traces=[dict(fam="cust", spec="CCHTrace", quick=700, thorough=9000)],
                models=[dict(spec="CCHModel", quick="CCHModel", thorough="CCHModelBig")],
                note="Every weight and unpacking triangle of basic, directed and pruned customization under 1,2,3,4,8 threads is checked against the recursion that determines them; model: that recursion equals the path definition under every task schedule."),
    "C06": dict(level="model_checking",
                traces=[dict(fam="cchq", spec="RoutingTrace", quick=900, thorough=12000)],
                models=[],
                note="Histories of metric updates and queries on four kinds of customized hierarchy; distances against certified distances, paths walked in the input graph."),
    "C07": dict(level="model_checking",
                traces=[dict(fam="perfect", spec="CCHTrace", quick=700, thorough=9000)],
                models=[dict(spec="CCHModel", quick="CCHModel", thorough="CCHModelBig")],
                note="Weights of the reduced hierarchy equal certified distances, all up-down distances are exact, unpacking is consistent; in-place and validity-annotated forms; model: exact and lossless under every task schedule."),
    "C08": dict(level="model_checking",
                traces=[dict(fam="ch", spec="RoutingTrace", quick=1000, thorough=9000)],
                models=[dict(spec="ContractModel", quick="ContractModel", thorough="ContractModelBig")],
                note="Overlays after every number of contracted nodes (forward and backward array) carry the distances of the input, queries and unpacked paths against certified distances; model: every order of shortcut decisions and every admissible omission preserves distances on all small graphs."),
    "C09": dict(level="model_checking",
                traces=[dict(fam="many", spec="RoutingTrace", quick=1600, thorough=6000)],
                models=[],
                note="Histories of selections and scalar/batch/lazy one-to-many queries on basic, perfect and witness-based hierarchies, hub label distances and hubs, all against certified distances."),
    "C10": dict(level="model_checking",
                traces=[dict(fam="knn", spec="RoutingTrace", quick=1000, thorough=9000)],
                models=[],
                note="Histories of target selections and queries of four methods; result sets decided by the specification from certified distances."),
    "C12": dict(level="model_checking",
                traces=[dict(fam="pq", spec="DataTrace", quick=450, thorough=6000)],
                generate=[dict(spec="PQGen", quick="PQGen", thorough="PQGenBig", replay=dict(fam="pq", spec="DataTrace", chunk=6000))],
                models=[dict(spec="HeapModel", quick="HeapModel", thorough="HeapModelBig")],
                note="All operation sequences of length 4 (5 in thorough) over three ids enumerated by TLC and replayed, plus random histories up to 60 ids; complete observable state after every operation; model: the array heap refines the abstract map."),
    "C13": dict(level="model_checking",
                traces=[dict(fam="cont", spec="DataTrace", quick=320, thorough=5000)],
                models=[dict(spec="TimestampModel", quick="TimestampModel", thorough="TimestampModelBig")],
                note="Histories of writes, mutable accesses and resets on all element types including the wrap-around of the 32-bit counter in the real code; bit vectors around word boundaries; model: time stamps modulo M."),
    "C14": dict(level="model_checking",
                traces=[dict(fam="idmap", spec="DataTrace", quick=400, thorough=6000)],
                models=[],
                note="Member sets with empty, full and sparse blocks; every member, inverse, absent keys, arc tails and external link ids of both directions decided by the specification."),
    "C11": dict(level="model_checking",
                traces=[dict(fam="turns", spec="GraphTrace", quick=700, thorough=9000)],
                models=[dict(spec="TurnModel", quick="TurnModel", thorough="TurnModelBig")],
                note="Distances of expanded graphs against the cheapest turn-aware walk (labels over arcs, certified), lifted lower bounds and time-dependent expansion; model: expansion equals the walk definition on all small graphs and turn tables."),
    "C15": dict(level="model_checking",
                traces=[dict(fam="repr", spec="GraphTrace", quick=800, thorough=9000)],
                models=[],
                note="Every representation change as a multiset equation over (tail, head, weight, id); orders as mutually inverse bijections; all built-in graph views and accessors."),
    "C17": dict(level="model_checking",
                traces=[dict(fam="tdeval", spec="TDTrace", quick=500, thorough=4000)],
                models=[dict(spec="LiveModel", quick="LiveModel", thorough="LiveModelBig")],
                note="Evaluations, extrema, range extrema (plain, live and pessimistic) of real profiles decided by the specification's exact rational interpolation; model: live overlays keep first-in-first-out for all small profiles and reports."),
    "C18": dict(level="model_checking",
                traces=[dict(fam="tdq", spec="TDTrace", quick=2000, thorough=12000)],
                models=[dict(spec="TDModel", quick="TDModel", thorough="TDModelBig")],
                note="Histories of queries under predicted, live and pessimistic traffic; certified earliest arrivals, paths walked by the specification; model: label setting is exact on all small first-in-first-out networks."),
    "C16": dict(level="model_checking",
                traces=[dict(fam="io", spec="IOTrace", quick=1500, thorough=20000)],
                models=[],
                note="Histories of writes, foreign files, removals and reads of nine element types, the specification keeping the bytes of every file; composite objects stored twice, read back, and read after files were cut, extended or removed."),
    "C22": dict(level="model_checking",
                traces=[dict(fam="core", spec="RoutingTrace", quick=700, thorough=9000)],
                models=[dict(spec="ParBidirModel", quick="ParBidir", thorough="ParBidirBig")],
                note="Core and low-degree-skipping searches in seven one-directional and five bidirectional set-ups, both core servers (sequential and with two threads, with limits, repeated to vary the schedule) and every contracted core against certified distances; model: the two threads with store buffers are exact under every schedule."),
    "C25": dict(level="model_checking",
                traces=[dict(fam="speed", spec="SpeedTrace", quick=3000, thorough=9000)],
                models=[],
                note="Journeys over visited and skipped links with fixes at exact fractions; every entry time, velocity and the set of reported links decided by exact proportional arithmetic in the specification."),
    "C19": dict(level="model_checking",
                traces=[dict(fam="tdpot", spec="TDTrace", quick=420, thorough=6000)],
                models=[dict(spec="MetricModel", quick="MetricModel", thorough="MetricModelBig")],
                note="Lower-bound, recycling, multi-metric and interval-minimum potentials with predicted and live traffic: estimates at and without a time against certified journeys, accelerated answers (through the core or not) against the earliest arrival; model: the metric selected for any time covers all times up to the latest arrival."),
    "C24": dict(level="model_checking", build=("harness", "server"),
                traces=[dict(fam="server", spec="ServerTrace", quick=350, thorough=4000)],
                models=[dict(spec="ServerModel", quick="ServerModel", thorough="ServerModelBig")],
                note="The built service runs as a process with a data directory of its own; histories of coordinate and link queries, updates (also malformed and with unknown links) from up to three clients at once; the specification keeps the set of metrics which may be in force and certifies every answer; model: every interleaving of update threads and a query."),
    "C20": dict(level="model_checking",
                traces=[dict(fam="catchup", spec="CatchupTrace", quick=900, thorough=5000)],
                models=[],
                note="Histories of time-dependent hierarchy queries, plain searches on the same graph and whole-day profile queries after customization with one to several threads, also of stored and reloaded customizations; every answer against arrivals certified by the specification, paths travelled by it."),
    "C21": dict(level="model_checking",
                traces=[dict(fam="plf", spec="PLFTrace", quick=560, thorough=12000)],
                models=[dict(spec="PLFModel", quick="PLFModelAlgebra", thorough="PLFModelAlgebraBig"),
                        dict(spec="PLFModel", quick="PLFModel", thorough="PLFModelBig")],
                note="Expressions of links, merges, restrictions, updates, pieces and approximations, exact and with bounds; every returned function against the value of the expression in exact arithmetic; model: linking and merging on all small profiles, and merging by bounds with exact comparison only in overlaps."),
    "C23": dict(level="model_checking",
                traces=[dict(fam="detour", spec="DetourTrace", quick=4000, thorough=40000)],
                models=[],
                note="Reported subpaths, lower and upper stretch figures of four detectors on random paths; path fixing, detour blocking and path blocking with static, predicted and live traffic; the set of admissible paths is enumerated by the specification; the blocked-path search under arbitrary forbidden paths with a certificate over (node, automaton state)."),
    "C26": dict(level="model_checking",
                traces=[dict(fam="report", spec="ReportTrace", quick=3000, thorough=40000)],
                generate=[dict(spec="ReportModel", quick="ReportGen", thorough="ReportGenBig", replay=dict(fam="report", spec="ReportTrace", chunk=6000))],
                models=[dict(spec="ReportModel", quick="ReportModel", thorough="ReportModelBig")],
                note="All programs of 6 (7 in thorough) reporting operations enumerated by TLC and replayed; random programs with failing scopes, threads, measured functions, whole processes; everything handed over compared with the specification's tree; model: the context stack refines the meaning of nested scopes."),
}
