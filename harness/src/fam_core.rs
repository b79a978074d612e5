//! Searches which skip low degree nodes or stay in the biggest biconnected part; contracted cores.
use crate::fam_pot::{small_graph, two_metrics};
use crate::util::*;
use rand::prelude::*;
use rust_road_router::algo::{a_star::*, ch_potentials::query as chq, ch_potentials::*, customizable_contraction_hierarchy::*, dijkstra::*, topocore::*, *};
use rust_road_router::datastr::graph::{first_out_graph::OwnedGraph, *};
use rust_road_router::util::{Bool, False, True};
use rust_road_router::datastr::node_order::NodeOrder;
use serde_json::json;

/// several biconnected blocks with subdivided arcs, hung on each other, and trees
pub fn road_graph(r: &mut R, o: &Opt, thorough: bool) -> G {
    let mut e: Vec<(u32, u32, u32)> = vec![];
    let mut n = 1u32;
    let oneway = *[0.0, 0.0, 0.15, 0.4].choose(r).unwrap();
    let link = |e: &mut Vec<(u32, u32, u32)>, r: &mut R, u: u32, v: u32| {
        let w = o.weight(r);
        let dir = if r.gen_bool(oneway) { r.gen_range(0..2) } else { 2 };
        if dir != 1 {
            e.push((u, v, w));
        }
        if dir != 0 {
            e.push((v, u, if r.gen_bool(0.6) { w } else { o.weight(r) }));
        }
    };
    let max_n = if thorough { 36 } else { 26 };
    for _ in 0..r.gen_range(1..5) {
        if n > max_n - 6 {
            break;
        }
        let hook = r.gen_range(0..n);
        // nodes of the block
        let k = r.gen_range(2..=8u32);
        let mut b: Vec<u32> = (n..n + k).collect();
        n += k;
        if r.gen_bool(0.85) {
            b.push(hook);
        }
        b.shuffle(r);
        let m = r.gen_range(b.len()..=b.len() * 2);
        let mut pairs = vec![];
        for i in 0..b.len() {
            pairs.push((b[i], b[(i + 1) % b.len()]));
        }
        for _ in b.len()..m {
            pairs.push((*b.choose(r).unwrap(), *b.choose(r).unwrap()));
        }
        for (u, v) in pairs {
            if u == v && !o.loops {
                continue;
            }
            if r.gen_bool(0.3) && n < max_n {
                let c = r.gen_range(1..4);
                let mut last = u;
                for _ in 0..c {
                    link(&mut e, r, last, n);
                    last = n;
                    n += 1;
                }
                link(&mut e, r, last, v);
            } else {
                link(&mut e, r, u, v);
            }
        }
        for _ in 0..r.gen_range(0..4) {
            if n < max_n {
                let u = r.gen_range(0..n);
                link(&mut e, r, u, n);
                n += 1;
            }
        }
    }
    if !o.parallel {
        let mut seen = std::collections::HashSet::new();
        e.retain(|x| seen.insert((x.0, x.1)));
    }
    let mut perm: Vec<u32> = (0..n).collect();
    perm.shuffle(r);
    for x in &mut e {
        x.0 = perm[x.0 as usize];
        x.1 = perm[x.1 as usize];
    }
    e.shuffle(r);
    G::from_edges(n as usize, e)
}

/// estimates: exact distance of the lower metric divided by `div`
#[derive(Clone)]
struct Weak {
    d: std::sync::Arc<Vec<Vec<u32>>>,
    t: usize,
    div: u32,
}
impl Potential for Weak {
    fn init(&mut self, t: u32) {
        self.t = t as usize;
    }
    fn potential(&mut self, v: u32) -> Option<u32> {
        let x = self.d[v as usize][self.t];
        if x >= INF {
            None
        } else {
            Some(x / self.div)
        }
    }
}

macro_rules! queries {
    ($e:expr, $r:expr, $n:expr, $alg:expr, $srv:expr) => {
        for (s, t) in pick_pairs($r, $n, 7) {
            query!($e, $alg, $srv, s, t);
        }
    };
}

fn overlay<A: Bool, B: Bool, C: Bool, D: Bool>(e: &mut Ep, g: &G, name: &str) {
    let og = g.owned();
    if let Some(t) = e.guard(name, || preprocess::<_, A, B, C, D>(&og)) {
        // relabel so that the core are the last nodes, as the specification expects
        let n = g.n as u32;
        let f = |v: u32| n - 1 - v;
        let c = t.core_size as u32;
        let arcs = |g: &OwnedGraph| -> Vec<(u32, u32, u32)> {
            (0..c).flat_map(|v| LinkIterable::<Link>::link_iter(g, v).map(move |l| (f(v), f(l.node), l.weight)).collect::<Vec<_>>()).collect()
        };
        let fw = G::from_edges(g.n, arcs(&t.forward));
        let back: Vec<_> = arcs(&t.backward).into_iter().map(|(h, t, w)| json!([t, h, w])).collect();
        let mut order: Vec<u32> = (0..n).map(|r| t.order.node(r)).collect();
        order.reverse();
        let refs: Vec<_> = (n - c..n)
            .map(|s| {
                let (d, p, o) = fw.cert(s);
                json!({"s": s, "d": d, "p": p, "o": o})
            })
            .collect();
        e.ev(json!({"op": "overlay", "alg": name, "count": n - c, "order": order,
            "g": {"n": g.n, "fo": fw.fo, "tail": fw.tail, "head": fw.head, "w": fw.w, "back": back, "ref": refs}}));
    }
}

/// estimates for nodes named by their position in an order
#[derive(Clone)]
struct Ranked<P>(P, std::sync::Arc<NodeOrder>);
impl<P: Potential> Potential for Ranked<P> {
    fn init(&mut self, t: u32) {
        self.0.init(self.1.node(t))
    }
    fn potential(&mut self, v: u32) -> Option<u32> {
        self.0.potential(self.1.node(v))
    }
}
#[derive(Clone)]
struct Zero;
impl BiDirPotential for Zero {
    fn init(&mut self, s: u32, t: u32) {
        BiDirZeroPot.init(s, t)
    }
    fn stop(&mut self, f: Option<u32>, b: Option<u32>, d: u32) -> bool {
        BiDirZeroPot.stop(f, b, d)
    }
    fn forward_potential(&mut self, v: u32) -> Option<u32> {
        BiDirZeroPot.forward_potential(v)
    }
    fn backward_potential(&mut self, v: u32) -> Option<u32> {
        BiDirZeroPot.backward_potential(v)
    }
    fn prune_forward(&mut self, h: NodeIdT, d: u32, q: u32, m: u32) -> bool {
        BiDirZeroPot.prune_forward(h, d, q, m)
    }
    fn prune_backward(&mut self, h: NodeIdT, d: u32, q: u32, m: u32) -> bool {
        BiDirZeroPot.prune_backward(h, d, q, m)
    }
    fn bidir_pot_key() -> &'static str {
        "Zero"
    }
}

/// queries between nodes of the core, on the graph of the core
macro_rules! core_queries {
    ($e:expr, $r:expr, $name:expr, $order:expr, $core:expr, $low:expr, $srv:expr) => {{
        let k = $core.len();
        for i in 0..8 {
            let s = $core[$r.gen_range(0..k)];
            let t = if i == 0 { s } else { $core[$r.gen_range(0..k)] };
            let (os, ot) = ($order.node(s), $order.node(t));
            let q = Query { from: s, to: t };
            // limits as penalised searches use them; the answer is only defined when it is within both
            let cap = *[INF, INF, $low[os as usize][ot as usize].saturating_add($r.gen_range(0..4)).min(INF), 3].choose($r).unwrap();
            let pcap = if $r.gen_bool(0.3) { Some(INF / 2) } else { None };
            let res = $e.guard($name, || {
                let mut res = $srv.distance_with_cap(q, cap, pcap);
                let d = res.distance();
                (d, res.node_path(), res.edge_path())
            });
            if let Some((d, p, ep)) = res {
                let path: Vec<u32> = p.unwrap_or_default().iter().map(|&v| $order.node(v)).collect();
                let g = $srv.graph();
                let steps: Vec<_> = ep
                    .unwrap_or_default()
                    .iter()
                    .map(|e| {
                        let Link { node, weight } = EdgeRandomAccessGraph::<Link>::link(g, e.0);
                        let tail = (0..g.num_nodes() as u32).find(|&v| g.neighbor_edge_indices(v).contains(&e.0)).unwrap();
                        json!([$order.node(tail), $order.node(node), weight])
                    })
                    .collect();
                $e.ev(json!({"op": "qcap", "alg": $name, "s": os, "t": ot, "cap": cap, "d": jo(d), "path": path, "steps": steps}));
            }
        }
    }};
}

/// the same question again and again: the threads meet in many different ways
fn repeat(e: &mut Ep, r: &mut R, thorough: bool) {
    let k = r.gen_range(5..8u32);
    let maxw = *[1, 2, 4, 9].choose(r).unwrap();
    let mut es = vec![];
    for x in 0..k {
        for y in 0..k {
            for (a, b) in [((x + 1) % k, y), (x, (y + 1) % k)] {
                let w = r.gen_range(1..=maxw);
                es.push((x * k + y, a * k + b, w));
                es.push((a * k + b, x * k + y, w));
            }
        }
    }
    let g = G::from_edges((k * k) as usize, es);
    e.graph(&g);
    let srcs = all_sources(&g);
    e.metrics(vec![metric_json(&g, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let d = g.dist_all();
    let (main, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new_topo_dijkstra_graphs(&g.owned());
    let mut srv = chq::MultiThreadedBiDirSkipLowDegServer::new(main, SymmetricBiDirPotential::<_, _, true>::new(ZeroPotential(), ZeroPotential()));
    for _ in 0..12 {
        let (s, t) = (r.gen_range(0..k * k), r.gen_range(0..k * k));
        let (os, ot) = (topo.order.node(s), topo.order.node(t));
        let cap = if r.gen_bool(0.5) { INF } else { d[os as usize][ot as usize] + r.gen_range(1..4) };
        let ds = e.guard("core-par-repeat", || {
            let mut ds = std::collections::BTreeSet::new();
            for _ in 0..if thorough { 6000 } else { 1500 } {
                ds.insert(jo(srv.distance(Query { from: s, to: t }, cap, None)));
            }
            ds.into_iter().collect::<Vec<_>>()
        });
        if let Some(ds) = ds {
            for d in ds {
                e.ev(json!({"op": "cap", "alg": "core-par-repeat", "s": os, "t": ot, "cap": cap, "d": d}));
            }
        }
    }
}

/// histories of alternative route queries by penalties; the searches are those with two threads on the core
fn alternatives(e: &mut Ep, r: &mut R, thorough: bool) {
    let g = if r.gen_bool(0.6) {
        let k = r.gen_range(3..if thorough { 7 } else { 6u32 });
        let (lo, hi) = *[(100, 101), (100, 120), (50, 300), (5, 40)].choose(r).unwrap();
        let mut es = vec![];
        for x in 0..k {
            for y in 0..k {
                for (a, b) in [(x + 1, y), (x, y + 1), (x + 1, y + 1)] {
                    if a < k && b < k && (a == x || b == y || r.gen_bool(0.2)) {
                        es.push((x * k + y, a * k + b, r.gen_range(lo..hi)));
                        if r.gen_bool(0.9) {
                            es.push((a * k + b, x * k + y, r.gen_range(lo..hi)));
                        }
                    }
                }
            }
        }
        G::from_edges((k * k) as usize, es)
    } else {
        let mut o = Opt::rand(r);
        o.inf = false;
        o.zero = false;
        o.maxw = *[9, 100].choose(r).unwrap();
        let g = road_graph(r, &o, thorough);
        let f = *[1, 13, 30].choose(r).unwrap();
        let w = g.w.iter().map(|&w| w.max(1) * f).collect();
        g.with_w(w)
    };
    if g.w.iter().any(|&w| w > 1_000_000) {
        return;
    }
    let n = g.n;
    e.graph(&g);
    let srcs = all_sources(&g);
    e.metrics(vec![metric_json(&g, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let d = g.dist_all();
    let og = g.owned();
    let low = if r.gen_bool(0.5) { og.clone() } else { g.with_w(g.w.iter().map(|&w| w - r.gen_range(0..=w / 4)).collect()).owned() };
    let order = some_order(r, &g);
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&low, order.clone())) {
        Some(c) => c,
        None => return,
    };
    let data = match e.guard("potdata", || CCHPotData::new(&cch, &low)) {
        Some(c) => c,
        None => return,
    };
    let (_, _, topo) = match e.guard("core-graphs", || VirtualTopocoreGraph::<OwnedGraph>::new_topo_dijkstra_graphs(&og)) {
        Some(x) => x,
        None => return,
    };
    let core: Vec<u32> = (0..n as u32).filter(|&v| topo.node_type(v).in_core()).map(|v| topo.order.node(v)).collect();
    if core.len() < 2 {
        return;
    }
    let one = e.guard("penalty-iterative", || penalty::PenaltyIterative::new(&og, &data));
    let full = e.guard("penalty", || penalty::Penalty::new(&og, data.forward_potential(), data.backward_potential()));
    if let (Some(mut one), Some(mut full)) = (one, full) {
        for i in 0..10 {
            let s = *core.choose(r).unwrap();
            let t = if i == 7 { s } else { *core.choose(r).unwrap() };
            if s != t && d[s as usize][t as usize] == 0 {
                continue;
            }
            let q = Query { from: s, to: t };
            match r.gen_range(0..5) {
                0 | 1 => {
                    if let Some(p) = e.guard("alt-one", || one.alternatives(q)) {
                        e.ev(json!({"op": "alt", "alg": "alt-one", "s": s, "t": t, "one": true, "found": p.is_some(), "paths": p.into_iter().collect::<Vec<_>>()}));
                    }
                }
                2 => {
                    if let Some(p) = e.guard("alt-graph", || full.alternatives(q)) {
                        e.ev(json!({"op": "altgraph", "alg": "alt-graph", "s": s, "t": t, "found": p.is_some()}));
                    }
                }
                _ => {
                    if let Some(p) = e.guard("alt-many", || full.alternatives_iterative(q)) {
                        e.ev(json!({"op": "alt", "alg": "alt-many", "s": s, "t": t, "one": false, "found": p.is_some(), "paths": p.unwrap_or_default()}));
                    }
                }
            }
        }
    }
}

pub fn run(e: &mut Ep, r: &mut R, ep: u64, thorough: bool) {
    if ep % 12 == 7 {
        return alternatives(e, r, thorough);
    }
    if ep % 60 == 17 {
        return repeat(e, r, thorough);
    }
    let o = Opt::rand(r);
    let lo = if ep % 3 == 0 { small_graph(r, ep, thorough, &o) } else { road_graph(r, &o, thorough) };
    let n = lo.n;
    let hi = two_metrics(r, &lo, true);
    e.graph(&lo);
    let srcs = all_sources(&lo);
    e.metrics(vec![metric_json(&hi, &srcs), metric_json(&lo, &srcs)]);
    e.ev(json!({"op": "metric", "k": 1}));
    let (lg, hg) = (lo.owned(), hi.owned());
    let low = std::sync::Arc::new(lo.dist_all());
    let div = *[1, 2, 7, 1000].choose(r).unwrap();
    let weak = || Weak { d: low.clone(), t: 0, div };
    let order = some_order(r, &lo);
    let cch = match e.guard("cch", || CCH::fix_order_and_build(&lg, order.clone())) {
        Some(c) => c,
        None => return,
    };
    let data = match e.guard("potdata", || CCHPotData::new(&cch, &lg)) {
        Some(c) => c,
        None => return,
    };
    let inf = hi.w.iter().any(|&w| w >= INF);
    macro_rules! uni {
        ($name:expr, $bcc:expr, $d2:expr, $d3:expr, $pot:expr) => {{
            let srv = if inf {
                e.guard($name, || chq::Server::<OwnedGraph, _, _, $bcc, $d2, $d3>::new_custom(&InfinityFilteringGraph(hi.owned()), $pot, DefaultOps::default()))
            } else {
                e.guard($name, || chq::Server::<OwnedGraph, _, _, $bcc, $d2, $d3>::new_custom(&hg, $pot, DefaultOps::default()))
            };
            if let Some(mut srv) = srv {
                queries!(e, r, n, $name, srv);
            }
        }};
    }
    match ep % 4 {
        0 => {
            uni!("uni-ttt-zero", true, true, true, ZeroPotential());
            uni!("uni-ttf-weak", true, true, false, weak());
        }
        1 => {
            uni!("uni-ttt-weak", true, true, true, weak());
            uni!("uni-ftf-cch", false, true, false, data.forward_potential());
        }
        2 => {
            uni!("uni-ttt-cch", true, true, true, data.forward_potential());
            uni!("uni-ftt-weak", false, true, true, weak());
        }
        _ => {
            uni!("uni-tff-weak", true, false, false, weak());
            uni!("uni-fff-zero", false, false, false, ZeroPotential());
            uni!("uni-tft-cch", true, false, true, data.forward_potential());
        }
    }
    macro_rules! bi {
        ($name:expr, $pot:expr, $dir:ty) => {{
            let srv = if inf {
                let ig = InfinityFilteringGraph(hi.owned());
                e.guard($name, || chq::BiDirServer::<_, $dir>::new(&ig, $pot))
            } else {
                e.guard($name, || chq::BiDirServer::<_, $dir>::new(&hg, $pot))
            };
            if let Some(mut srv) = srv {
                queries!(e, r, n, $name, srv);
            }
        }};
    }
    let _ = &data;
    match ep % 5 {
        0 => bi!("bi-zero-min", BiDirZeroPot, ChooseMinKeyDir),
        1 => bi!("bi-zero-alt", BiDirZeroPot, AlternatingDirs),
        2 => bi!("bi-sym-alt", SymmetricBiDirPotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs),
        3 => bi!("bi-avg-min", AveragePotential::<_, _, false>::new(data.forward_potential(), data.backward_potential()), ChooseMinKeyDir),
        _ => bi!("bi-avg-ip-alt", AveragePotential::<_, _, true>::new(data.forward_potential(), data.backward_potential()), AlternatingDirs),
    }
    if let Some((main, _, topo)) = if inf {
        e.guard("core-graphs", || VirtualTopocoreGraph::<OwnedGraph>::new_topo_dijkstra_graphs(&InfinityFilteringGraph(hi.owned())))
    } else {
        e.guard("core-graphs", || VirtualTopocoreGraph::<OwnedGraph>::new_topo_dijkstra_graphs(&hg))
    } {
        let order = std::sync::Arc::new(topo.order.clone());
        let core: Vec<u32> = (0..n as u32).filter(|&v| topo.node_type(v).in_core()).collect();
        let (f, b) = (Ranked(data.forward_potential(), order.clone()), Ranked(data.backward_potential(), order.clone()));
        let h = hi.dist_all();
        macro_rules! core {
            ($name:expr, $srv:expr) => {
                if !core.is_empty() {
                    if let Some(mut srv) = e.guard($name, || $srv) {
                        core_queries!(e, r, $name, order, core, h, srv);
                    }
                }
            };
        }
        match ep % 4 {
            0 => core!("core-bidir-sym", chq::BiDirCoreServer::<_, AlternatingDirs>::new(main, SymmetricBiDirPotential::<_, _, true>::new(f, b))),
            1 => core!("core-par-sym", chq::MultiThreadedBiDirSkipLowDegServer::new(main, SymmetricBiDirPotential::<_, _, true>::new(f, b))),
            2 => core!("core-bidir-avg", chq::BiDirCoreServer::<_, ChooseMinKeyDir>::new(main, AveragePotential::<_, _, true>::new(f, b))),
            _ => {
                if r.gen_bool(0.5) {
                    core!("core-par-avg", chq::MultiThreadedBiDirSkipLowDegServer::new(main, AveragePotential::<_, _, false>::new(f, b)))
                } else {
                    core!("core-par-zero", chq::MultiThreadedBiDirSkipLowDegServer::new(main, Zero))
                }
            }
        }
    }
    e.ev(json!({"op": "metric", "k": 2}));
    overlay::<False, True, False, False>(e, &lo, "core-deg1");
    overlay::<True, True, False, False>(e, &lo, "core-bcc-deg1");
    overlay::<True, True, True, False>(e, &lo, "core-bcc-deg2");
    overlay::<True, True, True, True>(e, &lo, "core-bcc-deg3");
    overlay::<False, True, True, True>(e, &lo, "core-deg3");
}
